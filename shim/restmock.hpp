// Stand-in for majordomo/RestServer.hpp (needs nghttp2/ngtcp2, not installed): records what the broker hands to the REST
// server and lets a harness inject REST requests. Include before majordomo/Broker.hpp.
#pragma once
#include <functional>
#include <cstdint>
#define OPENCMW_MAJORDOMO_RESTSERVER_HPP
#include <MdpMessage.hpp>
#include <Topic.hpp>
#include <MIME.hpp>
#include <IoBuffer.hpp>
#include <majordomo/Rest.hpp>
#include <zmq.h>
#include <cstdint>
#include <deque>
#include <expected>
#include <filesystem>
#include <string>
#include <vector>
#include <algorithm>
#include <charconv>
#include <cstring>
#include <iterator>
#include <memory>
#include <optional>
#include <ranges>

namespace opencmw::rest::detail {
inline void setupIgnoreSigpipe() {}
}
namespace opencmw::majordomo::detail::rest {
struct RestServer {
    using Message = mdp::BasicMessage<mdp::MessageFormat::WithSourceId>;
    struct State {
        std::deque<Message>                             inject;        // requests arriving over HTTP
        std::vector<Message>                            responses;     // what the broker answered
        std::vector<std::pair<std::string, Message>>    notifications; // (subscription topic, message)
    };
    static State &state() { static State s; return s; }
    static std::expected<RestServer, std::string> unencrypted() { return RestServer{}; }
    static std::expected<RestServer, std::string> sslWithBuffers(std::string_view, std::string_view) { return RestServer{}; }
    static std::expected<RestServer, std::string> sslWithPaths(std::filesystem::path, std::filesystem::path) { return RestServer{}; }
    void setHandlers(std::vector<opencmw::majordomo::rest::Handler>) {}
    std::expected<void, std::string> bind(const opencmw::majordomo::rest::Settings &) { return {}; }
    void handleResponse(Message &&m) { state().responses.push_back(std::move(m)); }
    void handleNotification(const mdp::Topic &t, Message &&m) { state().notifications.emplace_back(t.toZmqTopic(), std::move(m)); }
    void populatePollerItems(std::vector<zmq_pollitem_t> &items) {
        zmq_pollitem_t it{};
        it.socket  = nullptr;
        it.fd      = 12345;
        it.events  = ZMQ_POLLIN;
        it.revents = state().inject.empty() ? 0 : ZMQ_POLLIN;
        items.push_back(it);
    }
    std::vector<Message> processReadWrite(int, bool, bool) {
        std::vector<Message> r;
        for (auto &m : state().inject) r.push_back(std::move(m));
        state().inject.clear();
        return r;
    }
};
} // namespace opencmw::majordomo::detail::rest
