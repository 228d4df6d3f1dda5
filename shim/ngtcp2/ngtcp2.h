// Declarations only (libngtcp2 is not installed): enough for RestServer.hpp to compile; QUIC is not exercised.
#pragma once
#include <nghttp3/nghttp3.h>
#include <cstring>
#include <sys/socket.h>
using ngtcp2_ssize    = ptrdiff_t;
using ngtcp2_tstamp   = uint64_t;
using ngtcp2_duration = uint64_t;
struct ngtcp2_conn;
struct ngtcp2_crypto_aead_ctx;
struct ngtcp2_rand_ctx;
struct ngtcp2_vec { uint8_t *base; size_t len; };
struct ngtcp2_addr { sockaddr *addr; socklen_t addrlen; };
struct ngtcp2_path { ngtcp2_addr local, remote; void *user_data; };
struct ngtcp2_path_storage { ngtcp2_path path; };
constexpr size_t NGTCP2_MAX_CIDLEN = 20, NGTCP2_MIN_INITIAL_DCIDLEN = 8, NGTCP2_MAX_UDP_PAYLOAD_SIZE = 1200, NGTCP2_STATELESS_RESET_TOKENLEN = 16;
constexpr uint64_t NGTCP2_SECONDS = 1000000000ULL;
constexpr uint32_t NGTCP2_PROTO_VER_V1 = 1, NGTCP2_PROTO_VER_V2 = 0x6b3343cf;
struct ngtcp2_cid { size_t datalen; uint8_t data[20]; };
struct ngtcp2_pkt_info { uint8_t ecn; };
struct ngtcp2_ccerr { int type; uint64_t error_code; };
struct ngtcp2_version_cid { uint32_t version; const uint8_t *dcid; size_t dcidlen; const uint8_t *scid; size_t scidlen; };
enum ngtcp2_token_type { NGTCP2_TOKEN_TYPE_UNKNOWN, NGTCP2_TOKEN_TYPE_RETRY, NGTCP2_TOKEN_TYPE_NEW_TOKEN };
enum ngtcp2_encryption_level { NGTCP2_ENCRYPTION_LEVEL_INITIAL, NGTCP2_ENCRYPTION_LEVEL_HANDSHAKE, NGTCP2_ENCRYPTION_LEVEL_1RTT, NGTCP2_ENCRYPTION_LEVEL_0RTT };
enum ngtcp2_path_validation_result { NGTCP2_PATH_VALIDATION_RESULT_SUCCESS };
constexpr int NGTCP2_ERR_CALLBACK_FAILURE = -502, NGTCP2_ERR_CRYPTO = -215, NGTCP2_ERR_DRAINING = -231, NGTCP2_ERR_DROP_CONN = -242, NGTCP2_ERR_RETRY = -241, NGTCP2_ERR_STREAM_DATA_BLOCKED = -210, NGTCP2_ERR_STREAM_SHUT_WR = -221, NGTCP2_ERR_VERSION_NEGOTIATION = -245, NGTCP2_ERR_WRITE_MORE = -240, NGTCP2_INVALID_TOKEN = 0xb, NGTCP2_CCERR_TYPE_IDLE_CLOSE = 3, NGTCP2_PATH_VALIDATION_FLAG_NEW_TOKEN = 2, NGTCP2_PKT_INITIAL = 0x10, NGTCP2_STREAM_CLOSE_FLAG_APP_ERROR_CODE_SET = 1, NGTCP2_STREAM_DATA_FLAG_FIN = 1, NGTCP2_WRITE_STREAM_FLAG_FIN = 2, NGTCP2_WRITE_STREAM_FLAG_MORE = 1;
struct ngtcp2_pkt_hd { ngtcp2_cid dcid, scid; int64_t pkt_num; const uint8_t *token; size_t tokenlen; size_t pkt_numlen, len; uint32_t version; uint8_t type, flags; };
struct ngtcp2_settings { void (*log_printf)(void *, const char *, ...); const uint8_t *token; size_t tokenlen; ngtcp2_token_type token_type; };
struct ngtcp2_transport_params { ngtcp2_cid original_dcid, initial_scid, retry_scid; uint64_t initial_max_stream_data_bidi_local, initial_max_stream_data_bidi_remote, initial_max_stream_data_uni, initial_max_data, initial_max_streams_bidi, initial_max_streams_uni, max_idle_timeout, active_connection_id_limit; uint8_t stateless_reset_token_present, retry_scid_present, original_dcid_present; uint8_t stateless_reset_token[16]; };
struct ngtcp2_callbacks { ngstub::AnyFn client_initial, recv_client_initial, recv_crypto_data, handshake_completed, recv_version_negotiation, encrypt, decrypt, hp_mask, recv_stream_data, acked_stream_data_offset, stream_open, stream_close, rand, get_new_connection_id, remove_connection_id, update_key, path_validation, stream_reset, extend_max_remote_streams_bidi, extend_max_stream_data, delete_crypto_aead_ctx, delete_crypto_cipher_ctx, get_path_challenge_data, stream_stop_sending, version_negotiation, recv_tx_key; };
inline int  ngtcp2_cid_eq(const ngtcp2_cid *a, const ngtcp2_cid *b) { return a->datalen == b->datalen && std::memcmp(a->data, b->data, a->datalen) == 0; }
inline void ngtcp2_cid_init(ngtcp2_cid *c, const uint8_t *d, size_t n) { c->datalen = n; std::memcpy(c->data, d, n); }
NGSTUB(int, ngtcp2_accept)
NGSTUB(void, ngtcp2_ccerr_set_application_error)
NGSTUB(void, ngtcp2_ccerr_set_liberr)
NGSTUB(void, ngtcp2_ccerr_set_tls_alert)
NGSTUB(void, ngtcp2_conn_extend_max_offset)
NGSTUB(int, ngtcp2_conn_extend_max_stream_offset)
NGSTUB(void, ngtcp2_conn_extend_max_streams_bidi)
NGSTUB(uint32_t, ngtcp2_conn_get_client_chosen_version)
NGSTUB(const ngtcp2_cid *, ngtcp2_conn_get_client_initial_dcid)
NGSTUB(const ngtcp2_transport_params *, ngtcp2_conn_get_local_transport_params)
NGSTUB(uint64_t, ngtcp2_conn_get_max_data_left)
NGSTUB(size_t, ngtcp2_conn_get_max_tx_udp_payload_size)
NGSTUB(uint32_t, ngtcp2_conn_get_negotiated_version)
NGSTUB(const ngtcp2_path *, ngtcp2_conn_get_path)
NGSTUB(size_t, ngtcp2_conn_get_path_max_tx_udp_payload_size)
NGSTUB(size_t, ngtcp2_conn_get_scid)
NGSTUB(size_t, ngtcp2_conn_get_send_quantum)
NGSTUB(uint64_t, ngtcp2_conn_get_streams_uni_left)
NGSTUB(uint8_t, ngtcp2_conn_get_tls_alert)
NGSTUB(int, ngtcp2_conn_in_closing_period)
NGSTUB(int, ngtcp2_conn_in_draining_period)
NGSTUB(int, ngtcp2_conn_is_local_stream)
NGSTUB(int, ngtcp2_conn_open_uni_stream)
NGSTUB(int, ngtcp2_conn_read_pkt)
NGSTUB(int, ngtcp2_conn_server_new)
NGSTUB(void, ngtcp2_conn_set_tls_native_handle)
NGSTUB(int, ngtcp2_conn_submit_new_token)
NGSTUB(void, ngtcp2_conn_update_pkt_tx_time)
NGSTUB(ngtcp2_ssize, ngtcp2_conn_write_connection_close)
NGSTUB(ngtcp2_ssize, ngtcp2_conn_writev_stream)
NGSTUB(int, ngtcp2_is_bidi_stream)
NGSTUB(void, ngtcp2_path_copy)
NGSTUB(int, ngtcp2_path_eq)
NGSTUB(void, ngtcp2_path_storage_zero)
NGSTUB(int, ngtcp2_pkt_decode_version_cid)
NGSTUB(ngtcp2_ssize, ngtcp2_pkt_write_stateless_reset)
NGSTUB(ngtcp2_ssize, ngtcp2_pkt_write_version_negotiation)
NGSTUB(void, ngtcp2_settings_default)
NGSTUB(const char *, ngtcp2_strerror)
NGSTUB(void, ngtcp2_transport_params_default)
