// Minimal in-memory stand-in for libzmq (which is not installed here): the C API the repository uses.
// Semantics: see zmqfake.cpp. Used by the MDP/broker/worker/client harnesses.
#pragma once
#include <cerrno>
#include <cstddef>
#include <cstdint>
#ifdef __cplusplus
extern "C" {
#endif
#define ZMQ_VERSION_MAJOR 4
#define ZMQ_VERSION_MINOR 3
#define ZMQ_VERSION_PATCH 4
enum { ZMQ_PAIR = 0, ZMQ_PUB, ZMQ_SUB, ZMQ_REQ, ZMQ_REP, ZMQ_DEALER, ZMQ_ROUTER, ZMQ_PULL, ZMQ_PUSH, ZMQ_XPUB, ZMQ_XSUB };
enum { ZMQ_ROUTING_ID = 5, ZMQ_IDENTITY = 5, ZMQ_SUBSCRIBE = 6, ZMQ_UNSUBSCRIBE = 7, ZMQ_RCVMORE = 13, ZMQ_FD = 14, ZMQ_EVENTS = 15, ZMQ_TYPE = 16, ZMQ_LINGER = 17, ZMQ_RECONNECT_IVL = 18, ZMQ_SNDHWM = 23, ZMQ_RCVHWM = 24,
    ZMQ_LAST_ENDPOINT = 32, ZMQ_ROUTER_MANDATORY = 33, ZMQ_IMMEDIATE = 39, ZMQ_XPUB_VERBOSE = 40, ZMQ_XPUB_NODROP = 69, ZMQ_HEARTBEAT_IVL = 75, ZMQ_HEARTBEAT_TTL = 76, ZMQ_HEARTBEAT_TIMEOUT = 77, ZMQ_XPUB_VERBOSER = 78 };
enum { ZMQ_DONTWAIT = 1, ZMQ_SNDMORE = 2 };
enum { ZMQ_POLLIN = 1, ZMQ_POLLOUT = 2, ZMQ_POLLERR = 4, ZMQ_POLLPRI = 8 };
#ifndef EFSM
#define EFSM 156384763
#define ETERM 156384765
#endif
typedef struct zmq_msg_t { unsigned char _[64] __attribute__((aligned(8))); } zmq_msg_t;
typedef void(zmq_free_fn)(void *data, void *hint);
typedef struct zmq_pollitem_t { void *socket; int fd; short events; short revents; } zmq_pollitem_t;
int         zmq_errno(void);
const char *zmq_strerror(int);
void       *zmq_ctx_new(void);
int         zmq_ctx_term(void *);
int         zmq_ctx_destroy(void *);
int         zmq_ctx_shutdown(void *);
int         zmq_ctx_set(void *, int, int);
void       *zmq_socket(void *, int);
int         zmq_close(void *);
int         zmq_bind(void *, const char *);
int         zmq_connect(void *, const char *);
int         zmq_unbind(void *, const char *);
int         zmq_disconnect(void *, const char *);
int         zmq_setsockopt(void *, int, const void *, size_t);
int         zmq_getsockopt(void *, int, void *, size_t *);
int         zmq_msg_init(zmq_msg_t *);
int         zmq_msg_init_size(zmq_msg_t *, size_t);
int         zmq_msg_init_data(zmq_msg_t *, void *, size_t, zmq_free_fn *, void *);
int         zmq_msg_close(zmq_msg_t *);
int         zmq_msg_move(zmq_msg_t *, zmq_msg_t *);
int         zmq_msg_copy(zmq_msg_t *, zmq_msg_t *);
void       *zmq_msg_data(zmq_msg_t *);
size_t      zmq_msg_size(const zmq_msg_t *);
int         zmq_msg_more(const zmq_msg_t *);
int         zmq_msg_send(zmq_msg_t *, void *, int);
int         zmq_msg_recv(zmq_msg_t *, void *, int);
int         zmq_send(void *, const void *, size_t, int);
int         zmq_recv(void *, void *, size_t, int);
int         zmq_poll(zmq_pollitem_t *, int, long);
#ifdef __cplusplus
}
#endif
