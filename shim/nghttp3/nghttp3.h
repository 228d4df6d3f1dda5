// Declarations only (libnghttp3 is not installed): enough for RestServer.hpp to compile; HTTP/3 is not exercised.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
using nghttp3_ssize = ptrdiff_t;
namespace ngstub {
struct AnyFn { template<class T> AnyFn &operator=(T) { return *this; } void *p; };
} // namespace ngstub
#define NGSTUB(ret, name) template<class... A> inline ret name(A &&...) { std::abort(); }
struct nghttp3_conn;
struct nghttp3_rcbuf;
struct nghttp3_mem;
struct nghttp3_vec { uint8_t *base; size_t len; };
struct nghttp3_nv { uint8_t *name; uint8_t *value; size_t namelen; size_t valuelen; uint8_t flags; };
constexpr uint8_t NGHTTP3_NV_FLAG_NONE = 0, NGHTTP3_NV_FLAG_NO_COPY_NAME = 2, NGHTTP3_NV_FLAG_NO_COPY_VALUE = 4, NGHTTP3_DATA_FLAG_EOF = 1;
constexpr int NGHTTP3_ERR_CALLBACK_FAILURE = -902, NGHTTP3_ERR_STREAM_NOT_FOUND = -110, NGHTTP3_H3_NO_ERROR = 0x100;
struct nghttp3_settings { uint64_t max_field_section_size; size_t qpack_max_dtable_capacity; size_t qpack_encoder_max_dtable_capacity; size_t qpack_blocked_streams; };
struct nghttp3_data_reader { nghttp3_ssize (*read_data)(nghttp3_conn *, int64_t, nghttp3_vec *, size_t, uint32_t *, void *, void *); };
struct nghttp3_callbacks { ngstub::AnyFn acked_stream_data, stream_close, recv_data, deferred_consume, begin_headers, recv_header, end_headers, begin_trailers, recv_trailer, end_trailers, stop_sending, end_stream, reset_stream, shutdown, recv_settings; };
inline nghttp3_vec nghttp3_rcbuf_get_buf(const nghttp3_rcbuf *) { std::abort(); }
inline void        nghttp3_conn_del(nghttp3_conn *) {}
NGSTUB(int, nghttp3_conn_add_ack_offset)
NGSTUB(int, nghttp3_conn_add_write_offset)
NGSTUB(int, nghttp3_conn_bind_control_stream)
NGSTUB(int, nghttp3_conn_bind_qpack_streams)
NGSTUB(int, nghttp3_conn_block_stream)
NGSTUB(int, nghttp3_conn_close_stream)
NGSTUB(nghttp3_ssize, nghttp3_conn_read_stream)
NGSTUB(int, nghttp3_conn_server_new)
NGSTUB(void, nghttp3_conn_set_max_client_streams_bidi)
NGSTUB(int, nghttp3_conn_set_stream_user_data)
NGSTUB(int, nghttp3_conn_shutdown_stream_read)
NGSTUB(int, nghttp3_conn_shutdown_stream_write)
NGSTUB(int, nghttp3_conn_submit_response)
NGSTUB(int, nghttp3_conn_unblock_stream)
NGSTUB(nghttp3_ssize, nghttp3_conn_writev_stream)
NGSTUB(uint64_t, nghttp3_err_infer_quic_app_error_code)
NGSTUB(const nghttp3_mem *, nghttp3_mem_default)
NGSTUB(void, nghttp3_settings_default)
NGSTUB(const char *, nghttp3_strerror)
