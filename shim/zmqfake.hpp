#pragma once
#include <zmq.h>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <vector>
// control / observation interface of the in-memory libzmq
namespace zmqfake {
void        reset();          // forget everything (between executions); reports nothing
long        liveContents();   // reference-counted message bodies whose free function has not run
long        openSockets();
std::string firstError();     // first API misuse detected (double close, use of a closed socket, ...), "" if none
extern std::function<bool(long)> onPoll; // called when zmq_poll has nothing ready (timeout in ms); false: poll returns -1
extern std::function<short(int fd)> fdReady; // poll result of a plain file descriptor
extern std::function<int(int type)> sendFault; // != 0: errno returned by the send of a first frame
struct Peer {                  // raw peer helper: whole messages as frame lists
    void *sock;
};
void                                 send(void *sock, const std::vector<std::string> &frames);
bool                                 recv(void *sock, std::vector<std::string> &frames);
std::size_t                          pending(void *sock); // complete messages readable right now
std::multimap<std::string, void *>   subscriptions(void *xpub); // (prefix -> pipe) at an XPUB
std::map<std::string, long>          ownSubscriptions(void *sub);
std::size_t                          sentCount(void *sock); // messages handed to that socket by its owner
void                                *findBound(const std::string &endpoint);
} // namespace zmqfake
