// In-memory implementation of the part of libnghttp2's server-side session API that RestServer.hpp uses, after its
// documentation: callbacks and their order, ownership of header names/values (NO_COPY flags: read when the frame is
// serialised), data providers, half-closed streams, resets, frames for streams that no longer exist.
// Frame encoding: type(1) flags(1) stream(4, LE) length(4, LE) payload; HEADERS payload: name NUL value NUL ...
#include "nghttp2.h"
#include <algorithm>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <string>
#include <vector>
struct nghttp2_session_callbacks {
    nghttp2_on_frame_recv_callback      frameRecv   = nullptr;
    nghttp2_on_frame_send_callback      frameSend   = nullptr;
    nghttp2_on_frame_not_send_callback  notSend     = nullptr;
    nghttp2_on_data_chunk_recv_callback chunk       = nullptr;
    nghttp2_on_stream_close_callback    streamClose = nullptr;
    nghttp2_on_header_callback2         header      = nullptr;
    nghttp2_on_header_callback          header1     = nullptr;
};
struct nghttp2_rcbuf { std::string s; };
namespace {
struct Nv { std::string name, value; const uint8_t *n = nullptr, *v = nullptr; size_t nl = 0, vl = 0; };
struct Out {
    uint8_t                               type;
    int32_t                               stream;
    std::vector<Nv>                       nvs;
    bool                                  hasData = false;
    nghttp2_data_provider2                prd{};
    uint32_t                              code = 0;
};
struct Stream { bool rdClosed = false, wrClosed = false, respQueued = false, failed = false; };
} // namespace
struct nghttp2_session {
    nghttp2_session_callbacks cb;
    void                     *user = nullptr;
    std::map<int32_t, Stream> streams;
    int32_t                   lastStream = 0;
    std::deque<Out>           out;
    std::string               in;
    std::string               sendBuf;
    bool                      dead = false, client = false;
    int32_t                   nextStream = 1;
    void close(int32_t id, uint32_t code) {
        if (streams.erase(id) == 0) return;
        std::erase_if(out, [&](const Out &o) { return o.stream == id && o.type == NGHTTP2_DATA; }); // attached data items are dropped silently
        if (cb.streamClose) cb.streamClose(this, id, code, user);
    }
    void closeIfDone(int32_t id) {
        auto it = streams.find(id);
        if (it != streams.end() && it->second.rdClosed && it->second.wrClosed) close(id, 0);
    }
};
int  nghttp2_session_callbacks_new(nghttp2_session_callbacks **p) { *p = new nghttp2_session_callbacks; return 0; }
void nghttp2_session_callbacks_del(nghttp2_session_callbacks *p) { delete p; }
void nghttp2_session_callbacks_set_on_frame_recv_callback(nghttp2_session_callbacks *c, nghttp2_on_frame_recv_callback f) { c->frameRecv = f; }
void nghttp2_session_callbacks_set_on_frame_send_callback(nghttp2_session_callbacks *c, nghttp2_on_frame_send_callback f) { c->frameSend = f; }
void nghttp2_session_callbacks_set_on_frame_not_send_callback(nghttp2_session_callbacks *c, nghttp2_on_frame_not_send_callback f) { c->notSend = f; }
void nghttp2_session_callbacks_set_on_data_chunk_recv_callback(nghttp2_session_callbacks *c, nghttp2_on_data_chunk_recv_callback f) { c->chunk = f; }
void nghttp2_session_callbacks_set_on_stream_close_callback(nghttp2_session_callbacks *c, nghttp2_on_stream_close_callback f) { c->streamClose = f; }
void nghttp2_session_callbacks_set_on_header_callback2(nghttp2_session_callbacks *c, nghttp2_on_header_callback2 f) { c->header = f; }
void nghttp2_session_callbacks_set_on_invalid_frame_recv_callback(nghttp2_session_callbacks *, nghttp2_on_invalid_frame_recv_callback) {}
void nghttp2_session_callbacks_set_error_callback2(nghttp2_session_callbacks *, nghttp2_error_callback2) {}
int  nghttp2_session_server_new(nghttp2_session **s, const nghttp2_session_callbacks *c, void *user) {
    *s = new nghttp2_session;
    (*s)->cb   = *c;
    (*s)->user = user;
    return 0;
}
void          nghttp2_session_del(nghttp2_session *s) { delete s; }
int           nghttp2_session_want_read(nghttp2_session *s) { return !s->dead; }
int           nghttp2_session_want_write(nghttp2_session *s) { return !s->out.empty(); }
nghttp2_vec   nghttp2_rcbuf_get_buf(nghttp2_rcbuf *b) { return { reinterpret_cast<uint8_t *>(b->s.data()), b->s.size() }; }
const char   *nghttp2_strerror(int) { return "error"; }
nghttp2_ssize nghttp2_session_mem_recv2(nghttp2_session *s, const uint8_t *in, size_t inlen) {
    s->in.append(reinterpret_cast<const char *>(in), inlen); // (a bogus length is an over-read here as it is there)
    size_t pos = 0;
    while (s->in.size() - pos >= 10) {
        const auto *h = reinterpret_cast<const unsigned char *>(s->in.data()) + pos;
        auto        le = [&](int at) { return static_cast<uint32_t>(h[at]) | static_cast<uint32_t>(h[at + 1]) << 8 | static_cast<uint32_t>(h[at + 2]) << 16 | static_cast<uint32_t>(h[at + 3]) << 24; };
        const uint8_t type = h[0], flags = h[1];
        const auto    id  = static_cast<int32_t>(le(2));
        const size_t  len = le(6);
        if (type > 4) return NGHTTP2_ERR_PROTO;
        if (s->in.size() - pos - 10 < len) break;
        std::string   payload = s->in.substr(pos + 10, len);
        nghttp2_frame f{ { len, id, type, flags, 0 } };
        pos += 10 + len;
        if (type == NGHTTP2_HEADERS) {
            auto it = s->streams.find(id);
            if (s->client) { // a response
                if (it == s->streams.end()) {
                    if (id > s->lastStream) return NGHTTP2_ERR_PROTO;
                    continue; // for a stream that is gone
                }
                if (it->second.rdClosed) return NGHTTP2_ERR_PROTO;
                if (it->second.failed) continue;
            } else if (it == s->streams.end()) {
                if (id <= s->lastStream || id % 2 == 0) return NGHTTP2_ERR_PROTO;
                s->lastStream = id;
                it            = s->streams.emplace(id, Stream{}).first;
            } else if (it->second.rdClosed)
                return NGHTTP2_ERR_PROTO;
            for (size_t p = 0; p < payload.size();) {
                nghttp2_rcbuf n{ payload.c_str() + p };
                p += n.s.size() + 1;
                nghttp2_rcbuf v{ payload.c_str() + p };
                p += v.s.size() + 1;
                if (s->cb.header && s->cb.header(s, &f, &n, &v, 0, s->user) != 0) return NGHTTP2_ERR_CALLBACK_FAILURE;
                if (s->cb.header1) {
                    const int rc = s->cb.header1(s, &f, reinterpret_cast<const uint8_t *>(n.s.data()), n.s.size(), reinterpret_cast<const uint8_t *>(v.s.data()), v.s.size(), 0, s->user);
                    if (rc == NGHTTP2_ERR_TEMPORAL_CALLBACK_FAILURE) { // the stream is reset
                        it->second.failed = true;
                        nghttp2_submit_rst_stream(s, 0, id, NGHTTP2_INTERNAL_ERROR);
                        break;
                    }
                    if (rc != 0) return NGHTTP2_ERR_CALLBACK_FAILURE;
                }
            }
            if (it->second.failed) continue;
            if (s->cb.frameRecv && s->cb.frameRecv(s, &f, s->user) != 0) return NGHTTP2_ERR_CALLBACK_FAILURE;
        } else if (type == NGHTTP2_DATA) {
            auto it = s->streams.find(id);
            if (it == s->streams.end()) { // DATA for a closed stream is ignored
                if (id > s->lastStream) return NGHTTP2_ERR_PROTO;
                continue;
            }
            if (it->second.failed) continue;
            if (it->second.rdClosed) return NGHTTP2_ERR_PROTO;
            if (!payload.empty() && s->cb.chunk && s->cb.chunk(s, flags, id, reinterpret_cast<const uint8_t *>(payload.data()), payload.size(), s->user) != 0) return NGHTTP2_ERR_CALLBACK_FAILURE;
            if (s->cb.frameRecv && s->cb.frameRecv(s, &f, s->user) != 0) return NGHTTP2_ERR_CALLBACK_FAILURE;
        } else if (type == NGHTTP2_RST_STREAM) {
            if (id > s->lastStream) return NGHTTP2_ERR_PROTO;
            if (s->cb.frameRecv && s->cb.frameRecv(s, &f, s->user) != 0) return NGHTTP2_ERR_CALLBACK_FAILURE;
            s->close(id, 8);
        } else if (s->cb.frameRecv)
            s->cb.frameRecv(s, &f, s->user);
        if ((type == NGHTTP2_HEADERS || type == NGHTTP2_DATA) && (flags & NGHTTP2_FLAG_END_STREAM)) {
            if (auto it = s->streams.find(id); it != s->streams.end()) {
                it->second.rdClosed = true;
                s->closeIfDone(id);
            }
        }
    }
    s->in.erase(0, pos);
    return static_cast<nghttp2_ssize>(inlen);
}
int nghttp2_submit_settings(nghttp2_session *s, uint8_t, const nghttp2_settings_entry *, size_t) {
    s->out.push_back({ NGHTTP2_SETTINGS, 0, {}, false, {} });
    return 0;
}
int nghttp2_submit_response2(nghttp2_session *s, int32_t id, const nghttp2_nv *nv, size_t n, const nghttp2_data_provider2 *prd) {
    if (id <= 0) return NGHTTP2_ERR_INVALID_ARGUMENT;
    Out o{ NGHTTP2_HEADERS, id, {}, prd != nullptr && prd->read_callback != nullptr, {} };
    if (o.hasData) o.prd = *prd;
    for (size_t i = 0; i < n; i++) {
        Nv x;
        if (nv[i].flags & NGHTTP2_NV_FLAG_NO_COPY_NAME) { x.n = nv[i].name; x.nl = nv[i].namelen; } else x.name.assign(reinterpret_cast<const char *>(nv[i].name), nv[i].namelen);
        if (nv[i].flags & NGHTTP2_NV_FLAG_NO_COPY_VALUE) { x.v = nv[i].value; x.vl = nv[i].valuelen; } else x.value.assign(reinterpret_cast<const char *>(nv[i].value), nv[i].valuelen);
        o.nvs.push_back(std::move(x));
    }
    s->out.push_back(std::move(o));
    return 0;
}
nghttp2_ssize nghttp2_session_mem_send2(nghttp2_session *s, const uint8_t **data) {
    s->sendBuf.clear();
    while (!s->out.empty()) {
        Out           o = std::move(s->out.front());
        s->out.pop_front();
        nghttp2_frame f{ { 0, o.stream, o.type, 0, 0 } };
        std::string   payload;
        if (o.type == NGHTTP2_HEADERS) {
            auto it = s->streams.find(o.stream);
            if (s->client && it == s->streams.end()) it = s->streams.emplace(o.stream, Stream{}).first;
            if (it == s->streams.end() || it->second.wrClosed || it->second.respQueued) {
                if (s->cb.notSend && s->cb.notSend(s, &f, NGHTTP2_ERR_STREAM_CLOSED, s->user) != 0) return NGHTTP2_ERR_CALLBACK_FAILURE;
                continue;
            }
            it->second.respQueued = true;
            for (auto &x : o.nvs) {
                if (x.n) x.name.assign(reinterpret_cast<const char *>(x.n), x.nl);
                if (x.v) x.value.assign(reinterpret_cast<const char *>(x.v), x.vl);
                payload += x.name + '\0' + x.value + '\0';
            }
            if (o.hasData) s->out.push_back({ NGHTTP2_DATA, o.stream, {}, true, o.prd });
            else f.hd.flags = NGHTTP2_FLAG_END_STREAM;
        } else if (o.type == NGHTTP2_RST_STREAM) {
            if (!s->streams.contains(o.stream)) continue;
        } else if (o.type == NGHTTP2_DATA) {
            std::vector<uint8_t> b(nghttp2fake::maxFrame);
            uint32_t             fl = 0;
            const auto           n  = o.prd.read_callback(s, o.stream, b.data(), b.size(), &fl, &o.prd.source, s->user);
            if (n == NGHTTP2_ERR_TEMPORAL_CALLBACK_FAILURE) { // resets the stream
                f.hd.type = NGHTTP2_RST_STREAM;
            } else if (n < 0)
                return NGHTTP2_ERR_CALLBACK_FAILURE;
            else {
                if (static_cast<size_t>(n) > b.size()) std::abort();
                payload.assign(reinterpret_cast<const char *>(b.data()), static_cast<size_t>(n));
                if (fl & NGHTTP2_DATA_FLAG_EOF) f.hd.flags = NGHTTP2_FLAG_END_STREAM;
                else s->out.push_back(o);
            }
        }
        f.hd.length = payload.size();
        auto le     = [&](uint32_t v) { for (int i = 0; i < 4; i++) s->sendBuf.push_back(static_cast<char>(v >> (8 * i))); };
        s->sendBuf.push_back(static_cast<char>(f.hd.type));
        s->sendBuf.push_back(static_cast<char>(f.hd.flags));
        le(static_cast<uint32_t>(f.hd.stream_id));
        le(static_cast<uint32_t>(payload.size()));
        s->sendBuf += payload;
        // as the library does, the frame counts as sent as soon as it has been handed over
        if (s->cb.frameSend && s->cb.frameSend(s, &f, s->user) != 0) return NGHTTP2_ERR_CALLBACK_FAILURE;
        if (f.hd.type == NGHTTP2_RST_STREAM) s->close(o.stream, o.type == NGHTTP2_RST_STREAM ? o.code : 2);
        else if (f.hd.flags & NGHTTP2_FLAG_END_STREAM) {
            if (auto it = s->streams.find(o.stream); it != s->streams.end()) it->second.wrClosed = true;
            s->closeIfDone(o.stream);
        }
        *data = reinterpret_cast<const uint8_t *>(s->sendBuf.data());
        return static_cast<nghttp2_ssize>(s->sendBuf.size());
    }
    return 0;
}

void nghttp2_session_callbacks_set_on_header_callback(nghttp2_session_callbacks *c, nghttp2_on_header_callback f) { c->header1 = f; }
void nghttp2_session_callbacks_set_send_callback2(nghttp2_session_callbacks *, nghttp2_send_callback2) {} // (only used by nghttp2_session_send)
int  nghttp2_session_client_new(nghttp2_session **s, const nghttp2_session_callbacks *c, void *user) {
    nghttp2_session_server_new(s, c, user);
    (*s)->client = true;
    return 0;
}
int32_t nghttp2_submit_request2(nghttp2_session *s, const void *, const nghttp2_nv *nv, size_t n, const nghttp2_data_provider2 *prd, void *) {
    const int32_t id = s->nextStream;
    s->nextStream += 2;
    s->lastStream = id;
    const int rc  = nghttp2_submit_response2(s, id, nv, n, prd);
    return rc != 0 ? rc : id;
}
int nghttp2_submit_rst_stream(nghttp2_session *s, uint8_t, int32_t id, uint32_t code) {
    if (!s->streams.contains(id)) { // a request that was not sent yet is not sent at all
        std::erase_if(s->out, [id](const Out &o) { return o.stream == id; });
        return 0;
    }
    Out o{ NGHTTP2_RST_STREAM, id, {}, false, {} };
    o.code = code;
    s->out.push_back(std::move(o));
    return 0;
}
