// The endpoints of the C interface, dressed like those of the C++ one: the same programs drive both.
#pragma once
#include "sys_common.h"

#include "iceoryx_posh/popo/untyped_client.hpp"
#include "iceoryx_posh/popo/untyped_publisher.hpp"
#include "iceoryx_posh/popo/untyped_server.hpp"
#include "iceoryx_posh/popo/untyped_subscriber.hpp"

// the handles of the C interface name these classes without a namespace
#include "iceoryx_posh/runtime/service_discovery.hpp"
#include "iceoryx_posh/popo/listener.hpp"
#include "iceoryx_posh/popo/notification_info.hpp"
#include "iceoryx_posh/popo/user_trigger.hpp"
#include "iceoryx_binding_c/internal/cpp2c_subscriber.hpp"
#include "iceoryx_binding_c/internal/cpp2c_waitset.hpp"
using iox::popo::Listener;
using iox::popo::NotificationInfo;
using iox::popo::UserTrigger;
using iox::popo::RequestHeader;
using iox::popo::ResponseHeader;
using iox::popo::UntypedClient;
using iox::popo::UntypedServer;
using iox::runtime::ServiceDiscovery;
extern "C" {
#include "iceoryx_binding_c/chunk.h"
#include "iceoryx_binding_c/client.h"
#include "iceoryx_binding_c/enums.h"
#include "iceoryx_binding_c/listener.h"
#include "iceoryx_binding_c/notification_info.h"
#include "iceoryx_binding_c/user_trigger.h"
#include "iceoryx_binding_c/wait_set.h"
#include "iceoryx_binding_c/publisher.h"
#include "iceoryx_binding_c/request_header.h"
#include "iceoryx_binding_c/response_header.h"
#include "iceoryx_binding_c/server.h"
#include "iceoryx_binding_c/service_discovery.h"
#include "iceoryx_binding_c/subscriber.h"
}

namespace cb
{
using namespace iox;
using namespace iox::popo;

inline AllocationError allocError(iox_AllocationResult r)
{
    switch (r)
    {
    case AllocationResult_NO_MEMPOOLS_AVAILABLE:
        return AllocationError::NO_MEMPOOLS_AVAILABLE;
    case AllocationResult_RUNNING_OUT_OF_CHUNKS:
        return AllocationError::RUNNING_OUT_OF_CHUNKS;
    case AllocationResult_TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL:
        return AllocationError::TOO_MANY_CHUNKS_ALLOCATED_IN_PARALLEL;
    case AllocationResult_INVALID_PARAMETER_FOR_USER_PAYLOAD_OR_USER_HEADER:
        return AllocationError::INVALID_PARAMETER_FOR_USER_PAYLOAD_OR_USER_HEADER;
    case AllocationResult_INVALID_PARAMETER_FOR_REQUEST_HEADER:
        return AllocationError::INVALID_PARAMETER_FOR_REQUEST_HEADER;
    default:
        return AllocationError::UNDEFINED_ERROR;
    }
}
inline iox_ConsumerTooSlowPolicy slow(ConsumerTooSlowPolicy p) { return p == ConsumerTooSlowPolicy::WAIT_FOR_CONSUMER ? ConsumerTooSlowPolicy_WAIT_FOR_CONSUMER : ConsumerTooSlowPolicy_DISCARD_OLDEST_DATA; }
inline iox_QueueFullPolicy full(QueueFullPolicy p) { return p == QueueFullPolicy::BLOCK_PRODUCER ? QueueFullPolicy_BLOCK_PRODUCER : QueueFullPolicy_DISCARD_OLDEST_DATA; }

template <typename T, typename E>
expected<T, E> result(bool good, T v, E e)
{
    if (good)
        return ok(v);
    return err(e);
}

struct Pub
{
    iox_pub_storage_t st;
    iox_pub_t p;
    Pub(const capro::ServiceDescription& d, const PublisherOptions& o)
    {
        iox_pub_options_t c;
        iox_pub_options_init(&c);
        c.historyCapacity = o.historyCapacity;
        c.offerOnCreate = o.offerOnCreate;
        c.subscriberTooSlowPolicy = slow(o.subscriberTooSlowPolicy);
        p = iox_pub_init(&st, d.getServiceIDString().c_str(), d.getInstanceIDString().c_str(), d.getEventIDString().c_str(), &c);
    }
    ~Pub() { iox_pub_deinit(p); }
    Pub(const Pub&) = delete;
    expected<void*, AllocationError> loan(uint64_t size, uint32_t align)
    {
        void* m = nullptr;
        auto r = iox_pub_loan_aligned_chunk(p, &m, size, align);
        return result(r == AllocationResult_SUCCESS, m, allocError(r));
    }
    expected<void*, AllocationError> loan(uint64_t size, uint32_t align, uint32_t hsize, uint32_t halign)
    {
        void* m = nullptr;
        auto r = iox_pub_loan_aligned_chunk_with_user_header(p, &m, size, align, hsize, halign);
        return result(r == AllocationResult_SUCCESS, m, allocError(r));
    }
    void publish(void* m) { iox_pub_publish_chunk(p, m); }
    void release(void* m) { iox_pub_release_chunk(p, m); }
    void offer() { iox_pub_offer(p); }
    void stopOffer() { iox_pub_stop_offer(p); }
    bool isOffered() { return iox_pub_is_offered(p); }
    bool hasSubscribers() { return iox_pub_has_subscribers(p); }
};

struct Sub
{
    iox_sub_storage_t st;
    iox_sub_t s;
    Sub(const capro::ServiceDescription& d, const SubscriberOptions& o)
    {
        iox_sub_options_t c;
        iox_sub_options_init(&c);
        c.queueCapacity = o.queueCapacity;
        c.historyRequest = o.historyRequest;
        c.subscribeOnCreate = o.subscribeOnCreate;
        c.queueFullPolicy = full(o.queueFullPolicy);
        c.requirePublisherHistorySupport = o.requiresPublisherHistorySupport;
        s = iox_sub_init(&st, d.getServiceIDString().c_str(), d.getInstanceIDString().c_str(), d.getEventIDString().c_str(), &c);
    }
    ~Sub() { iox_sub_deinit(s); }
    Sub(const Sub&) = delete;
    expected<const void*, ChunkReceiveResult> take()
    {
        const void* m = nullptr;
        auto r = iox_sub_take_chunk(s, &m);
        return result(r == ChunkReceiveResult_SUCCESS, m, r == ChunkReceiveResult_NO_CHUNK_AVAILABLE ? ChunkReceiveResult::NO_CHUNK_AVAILABLE : ChunkReceiveResult::TOO_MANY_CHUNKS_HELD_IN_PARALLEL);
    }
    void release(const void* m) { iox_sub_release_chunk(s, m); }
    void subscribe() { iox_sub_subscribe(s); }
    void unsubscribe() { iox_sub_unsubscribe(s); }
    SubscribeState getSubscriptionState()
    {
        switch (iox_sub_get_subscription_state(s))
        {
        case SubscribeState_SUBSCRIBE_REQUESTED:
            return SubscribeState::SUBSCRIBE_REQUESTED;
        case SubscribeState_SUBSCRIBED:
            return SubscribeState::SUBSCRIBED;
        case SubscribeState_UNSUBSCRIBE_REQUESTED:
            return SubscribeState::UNSUBSCRIBE_REQUESTED;
        case SubscribeState_WAIT_FOR_OFFER:
            return SubscribeState::WAIT_FOR_OFFER;
        default:
            return SubscribeState::NOT_SUBSCRIBED;
        }
    }
    bool hasMissedData() { return iox_sub_has_lost_chunks(s); }
    bool hasData() { return iox_sub_has_chunks(s); }
    void releaseQueuedData() { iox_sub_release_queued_chunks(s); }
};

struct Cli
{
    iox_client_storage_t st;
    iox_client_t c;
    Cli(const capro::ServiceDescription& d, const ClientOptions& o)
    {
        iox_client_options_t x;
        iox_client_options_init(&x);
        x.responseQueueCapacity = o.responseQueueCapacity;
        x.connectOnCreate = o.connectOnCreate;
        x.responseQueueFullPolicy = full(o.responseQueueFullPolicy);
        x.serverTooSlowPolicy = slow(o.serverTooSlowPolicy);
        c = iox_client_init(&st, d.getServiceIDString().c_str(), d.getInstanceIDString().c_str(), d.getEventIDString().c_str(), &x);
    }
    ~Cli() { iox_client_deinit(c); }
    Cli(const Cli&) = delete;
    expected<void*, AllocationError> loan(uint64_t size, uint32_t align)
    {
        void* m = nullptr;
        auto r = iox_client_loan_aligned_request(c, &m, size, align);
        return result(r == AllocationResult_SUCCESS, m, allocError(r));
    }
    expected<void, ClientSendError> send(void* m)
    {
        auto r = iox_client_send(c, m);
        if (r == ClientSendResult_SUCCESS)
            return ok();
        return err(r == ClientSendResult_NO_CONNECT_REQUESTED  ? ClientSendError::NO_CONNECT_REQUESTED
                   : r == ClientSendResult_SERVER_NOT_AVAILABLE ? ClientSendError::SERVER_NOT_AVAILABLE
                                                                : ClientSendError::INVALID_REQUEST);
    }
    void releaseRequest(void* m) { iox_client_release_request(c, m); }
    expected<const void*, ChunkReceiveResult> take()
    {
        const void* m = nullptr;
        auto r = iox_client_take_response(c, &m);
        return result(r == ChunkReceiveResult_SUCCESS, m, r == ChunkReceiveResult_NO_CHUNK_AVAILABLE ? ChunkReceiveResult::NO_CHUNK_AVAILABLE : ChunkReceiveResult::TOO_MANY_CHUNKS_HELD_IN_PARALLEL);
    }
    void releaseResponse(const void* m) { iox_client_release_response(c, m); }
    void connect() { iox_client_connect(c); }
    void disconnect() { iox_client_disconnect(c); }
    ConnectionState getConnectionState()
    {
        switch (iox_client_get_connection_state(c))
        {
        case ConnectionState_CONNECT_REQUESTED:
            return ConnectionState::CONNECT_REQUESTED;
        case ConnectionState_CONNECTED:
            return ConnectionState::CONNECTED;
        case ConnectionState_DISCONNECT_REQUESTED:
            return ConnectionState::DISCONNECT_REQUESTED;
        case ConnectionState_WAIT_FOR_OFFER:
            return ConnectionState::WAIT_FOR_OFFER;
        default:
            return ConnectionState::NOT_CONNECTED;
        }
    }
    bool hasMissedResponses() { return iox_client_has_missed_responses(c); }
    bool hasResponses() { return iox_client_has_responses(c); }
    void releaseQueuedResponses() { iox_client_release_queued_responses(c); }
};

struct Srv
{
    iox_server_storage_t st;
    iox_server_t s;
    Srv(const capro::ServiceDescription& d, const ServerOptions& o)
    {
        iox_server_options_t x;
        iox_server_options_init(&x);
        x.requestQueueCapacity = o.requestQueueCapacity;
        x.offerOnCreate = o.offerOnCreate;
        x.requestQueueFullPolicy = full(o.requestQueueFullPolicy);
        x.clientTooSlowPolicy = slow(o.clientTooSlowPolicy);
        s = iox_server_init(&st, d.getServiceIDString().c_str(), d.getInstanceIDString().c_str(), d.getEventIDString().c_str(), &x);
    }
    ~Srv() { iox_server_deinit(s); }
    Srv(const Srv&) = delete;
    expected<const void*, ServerRequestResult> take()
    {
        const void* m = nullptr;
        auto r = iox_server_take_request(s, &m);
        return result(r == ServerRequestResult_SUCCESS, m, ServerRequestResult::NO_PENDING_REQUESTS);
    }
    void releaseRequest(const void* m) { iox_server_release_request(s, m); }
    expected<void*, AllocationError> loan(const void* request, uint64_t size, uint32_t align)
    {
        void* m = nullptr;
        auto r = iox_server_loan_aligned_response(s, request, &m, size, align);
        return result(r == AllocationResult_SUCCESS, m, allocError(r));
    }
    expected<void, ServerSendError> send(void* m)
    {
        auto r = iox_server_send(s, m);
        if (r == ServerSendResult_SUCCESS)
            return ok();
        return err(r == ServerSendResult_NOT_OFFERED           ? ServerSendError::NOT_OFFERED
                   : r == ServerSendResult_CLIENT_NOT_AVAILABLE ? ServerSendError::CLIENT_NOT_AVAILABLE
                                                                : ServerSendError::INVALID_RESPONSE);
    }
    void releaseResponse(void* m) { iox_server_release_response(s, m); }
    void offer() { iox_server_offer(s); }
    void stopOffer() { iox_server_stop_offer(s); }
    bool isOffered() { return iox_server_is_offered(s); }
    bool hasClients() { return iox_server_has_clients(s); }
    bool hasMissedRequests() { return iox_server_has_missed_requests(s); }
    bool hasRequests() { return iox_server_has_requests(s); }
    void releaseQueuedRequests() { iox_server_release_queued_requests(s); }
};

// the C++ server takes the header of the request, the C one its payload
inline auto loanResponse(UntypedServer& s, const void* req, uint64_t size) { return s.loan(RequestHeader::fromPayload(req), size, 8); }
inline auto loanResponse(Srv& s, const void* req, uint64_t size) { return s.loan(req, size, 8); }
inline void setSeqId(UntypedClient&, void* m, int64_t id) { RequestHeader::fromPayload(m)->setSequenceId(id); }
inline void setSeqId(Cli&, void* m, int64_t id) { iox_request_header_set_sequence_id(iox_request_header_from_payload(m), id); }
inline int64_t seqId(UntypedClient&, const void* m) { return ResponseHeader::fromPayload(m)->getSequenceId(); }
inline int64_t seqId(Cli&, const void* m) { return iox_response_header_get_sequence_id_const(iox_response_header_from_payload_const(m)); }
inline int64_t seqId(UntypedServer&, const void* m) { return RequestHeader::fromPayload(m)->getSequenceId(); }
inline int64_t seqId(Srv&, const void* m) { return iox_request_header_get_sequence_id_const(iox_request_header_from_payload_const(m)); }
} // namespace cb
