#pragma once
#include <ngtcp2/ngtcp2.h>
struct ngtcp2_crypto_conn_ref { ngtcp2_conn *(*get_conn)(ngtcp2_crypto_conn_ref *); void *user_data; };
constexpr size_t  NGTCP2_CRYPTO_MAX_REGULAR_TOKENLEN = 64, NGTCP2_CRYPTO_MAX_RETRY_TOKENLEN2 = 128;
constexpr uint8_t NGTCP2_CRYPTO_TOKEN_MAGIC_REGULAR = 0x36, NGTCP2_CRYPTO_TOKEN_MAGIC_RETRY2 = 0xb7;
enum { NGTCP2_CRYPTO_ERR_VERIFY_TOKEN = -202 };
inline void *ngtcp2_crypto_client_initial_cb, *ngtcp2_crypto_recv_client_initial_cb, *ngtcp2_crypto_recv_crypto_data_cb, *ngtcp2_crypto_encrypt_cb, *ngtcp2_crypto_decrypt_cb, *ngtcp2_crypto_hp_mask_cb, *ngtcp2_crypto_delete_crypto_aead_ctx_cb, *ngtcp2_crypto_delete_crypto_cipher_ctx_cb, *ngtcp2_crypto_get_path_challenge_data_cb, *ngtcp2_crypto_version_negotiation_cb;
NGSTUB(ngtcp2_ssize, ngtcp2_crypto_generate_regular_token)
NGSTUB(ngtcp2_ssize, ngtcp2_crypto_generate_retry_token2)
NGSTUB(int, ngtcp2_crypto_generate_stateless_reset_token)
NGSTUB(int, ngtcp2_crypto_update_key)
NGSTUB(int, ngtcp2_crypto_verify_regular_token)
NGSTUB(int, ngtcp2_crypto_verify_retry_token2)
NGSTUB(ngtcp2_ssize, ngtcp2_crypto_write_connection_close)
NGSTUB(ngtcp2_ssize, ngtcp2_crypto_write_retry)
