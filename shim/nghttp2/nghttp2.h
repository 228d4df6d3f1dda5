// Stand-in for libnghttp2 (not installed): its documented session semantics, as far as RestServer.hpp uses them, over a
// trivial frame encoding of its own (the code under test never looks at the encoding). See nghttp2fake.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <sys/types.h>
using nghttp2_ssize = ptrdiff_t;
struct nghttp2_session;
struct nghttp2_session_callbacks;
struct nghttp2_rcbuf;
struct nghttp2_vec { uint8_t *base; size_t len; };
struct nghttp2_nv { uint8_t *name; uint8_t *value; size_t namelen; size_t valuelen; uint8_t flags; };
enum { NGHTTP2_NV_FLAG_NONE = 0, NGHTTP2_NV_FLAG_NO_INDEX = 1, NGHTTP2_NV_FLAG_NO_COPY_NAME = 2, NGHTTP2_NV_FLAG_NO_COPY_VALUE = 4 };
enum { NGHTTP2_DATA = 0, NGHTTP2_HEADERS = 1, NGHTTP2_RST_STREAM = 3, NGHTTP2_SETTINGS = 4 };
enum { NGHTTP2_FLAG_NONE = 0, NGHTTP2_FLAG_END_STREAM = 1 };
enum { NGHTTP2_DATA_FLAG_NONE = 0, NGHTTP2_DATA_FLAG_EOF = 1 };
enum { NGHTTP2_ERR_INVALID_ARGUMENT = -501, NGHTTP2_ERR_DATA_EXIST = -529, NGHTTP2_ERR_STREAM_CLOSED = -510, NGHTTP2_ERR_PROTO = -505, NGHTTP2_ERR_TEMPORAL_CALLBACK_FAILURE = -521, NGHTTP2_ERR_NOMEM = -901, NGHTTP2_ERR_CALLBACK_FAILURE = -902, NGHTTP2_ERR_BAD_CLIENT_MAGIC = -903 };
enum { NGHTTP2_NO_ERROR = 0, NGHTTP2_INTERNAL_ERROR = 2, NGHTTP2_CANCEL = 8 };
enum { NGHTTP2_SETTINGS_MAX_CONCURRENT_STREAMS = 3 };
struct nghttp2_settings_entry { int32_t settings_id; uint32_t value; };
struct nghttp2_frame_hd { size_t length; int32_t stream_id; uint8_t type; uint8_t flags; uint8_t reserved; };
struct nghttp2_frame { nghttp2_frame_hd hd; };
union nghttp2_data_source { int fd; void *ptr; };
using nghttp2_data_source_read_callback2 = nghttp2_ssize (*)(nghttp2_session *, int32_t, uint8_t *, size_t, uint32_t *, nghttp2_data_source *, void *);
struct nghttp2_data_provider2 { nghttp2_data_source source; nghttp2_data_source_read_callback2 read_callback; };
using nghttp2_on_frame_recv_callback         = int (*)(nghttp2_session *, const nghttp2_frame *, void *);
using nghttp2_on_frame_send_callback         = int (*)(nghttp2_session *, const nghttp2_frame *, void *);
using nghttp2_on_frame_not_send_callback     = int (*)(nghttp2_session *, const nghttp2_frame *, int, void *);
using nghttp2_on_data_chunk_recv_callback    = int (*)(nghttp2_session *, uint8_t, int32_t, const uint8_t *, size_t, void *);
using nghttp2_on_stream_close_callback       = int (*)(nghttp2_session *, int32_t, uint32_t, void *);
using nghttp2_on_header_callback2            = int (*)(nghttp2_session *, const nghttp2_frame *, nghttp2_rcbuf *, nghttp2_rcbuf *, uint8_t, void *);
using nghttp2_on_header_callback             = int (*)(nghttp2_session *, const nghttp2_frame *, const uint8_t *, size_t, const uint8_t *, size_t, uint8_t, void *);
using nghttp2_send_callback2                 = nghttp2_ssize (*)(nghttp2_session *, const uint8_t *, size_t, int, void *);
using nghttp2_on_invalid_frame_recv_callback = int (*)(nghttp2_session *, const nghttp2_frame *, int, void *);
using nghttp2_error_callback2                = int (*)(nghttp2_session *, int, const char *, size_t, void *);
int         nghttp2_session_callbacks_new(nghttp2_session_callbacks **);
void        nghttp2_session_callbacks_del(nghttp2_session_callbacks *);
void        nghttp2_session_callbacks_set_on_frame_recv_callback(nghttp2_session_callbacks *, nghttp2_on_frame_recv_callback);
void        nghttp2_session_callbacks_set_on_frame_send_callback(nghttp2_session_callbacks *, nghttp2_on_frame_send_callback);
void        nghttp2_session_callbacks_set_on_frame_not_send_callback(nghttp2_session_callbacks *, nghttp2_on_frame_not_send_callback);
void        nghttp2_session_callbacks_set_on_data_chunk_recv_callback(nghttp2_session_callbacks *, nghttp2_on_data_chunk_recv_callback);
void        nghttp2_session_callbacks_set_on_stream_close_callback(nghttp2_session_callbacks *, nghttp2_on_stream_close_callback);
void        nghttp2_session_callbacks_set_on_header_callback2(nghttp2_session_callbacks *, nghttp2_on_header_callback2);
void        nghttp2_session_callbacks_set_on_invalid_frame_recv_callback(nghttp2_session_callbacks *, nghttp2_on_invalid_frame_recv_callback);
void        nghttp2_session_callbacks_set_error_callback2(nghttp2_session_callbacks *, nghttp2_error_callback2);
int         nghttp2_session_server_new(nghttp2_session **, const nghttp2_session_callbacks *, void *user_data);
void        nghttp2_session_del(nghttp2_session *);
int         nghttp2_session_want_read(nghttp2_session *);
int         nghttp2_session_want_write(nghttp2_session *);
nghttp2_ssize nghttp2_session_mem_recv2(nghttp2_session *, const uint8_t *in, size_t inlen);
nghttp2_ssize nghttp2_session_mem_send2(nghttp2_session *, const uint8_t **data);
int         nghttp2_submit_settings(nghttp2_session *, uint8_t flags, const nghttp2_settings_entry *, size_t);
int         nghttp2_submit_response2(nghttp2_session *, int32_t stream_id, const nghttp2_nv *, size_t nvlen, const nghttp2_data_provider2 *);
void        nghttp2_session_callbacks_set_on_header_callback(nghttp2_session_callbacks *, nghttp2_on_header_callback);
void        nghttp2_session_callbacks_set_send_callback2(nghttp2_session_callbacks *, nghttp2_send_callback2);
int         nghttp2_session_client_new(nghttp2_session **, const nghttp2_session_callbacks *, void *user_data);
int32_t     nghttp2_submit_request2(nghttp2_session *, const void *pri_spec, const nghttp2_nv *, size_t nvlen, const nghttp2_data_provider2 *, void *stream_user_data);
int         nghttp2_submit_rst_stream(nghttp2_session *, uint8_t flags, int32_t stream_id, uint32_t error_code);
nghttp2_vec nghttp2_rcbuf_get_buf(nghttp2_rcbuf *);
const char *nghttp2_strerror(int);
namespace nghttp2fake {
inline size_t maxFrame = 16384; // payload bytes per DATA frame
}
