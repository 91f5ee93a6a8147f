#pragma once
#include "streams.hpp"
#include "vmime/net/socket.hpp"
#include "vmime/net/session.hpp"
#include "vmime/net/timeoutHandler.hpp"
#include "vmime/exception.hpp"
namespace rp {
// a peer: what it sends arrives cut according to a schedule (0: nothing yet); waiting for a peer that has nothing to say is reported
class FakeSocket : public vmime::net::socket {
public:
	std::string in, sent; std::vector<size_t> s; size_t k = 0, idle = 0; bool connected = true;
	std::function<void(FakeSocket&)> onSend = [](FakeSocket&) {};
	struct Starved : public std::runtime_error { Starved() : std::runtime_error("waits for a peer that has nothing more to send") {} };
	void connect(const vmime::string&, const vmime::port_t) { connected = true; onSend(*this); }
	void disconnect() { connected = false; }
	bool isConnected() const { return connected; }
	bool waitForRead(const int) { return true; }
	bool waitForWrite(const int) { return true; }
	size_t take() {
		if (in.empty()) { if (++idle > 40) throw Starved(); return 0; }
		size_t n = s.empty() ? in.size() : s[k++ % s.size()];
		if (n == 0 && ++idle > 40) n = 1;
		if (n) idle = 0;
		return std::min(n, in.size());
	}
	void receive(vmime::string& b) { size_t n = take(); b = in.substr(0, n); in.erase(0, n); }
	size_t receiveRaw(vmime::byte_t* b, const size_t c) { size_t n = std::min(take(), c); memcpy(b, in.data(), n); in.erase(0, n); return n; }
	void send(const vmime::string& b) { sent += b; onSend(*this); }
	void send(const char* b) { sent += b; onSend(*this); }
	void sendRaw(const vmime::byte_t* b, const size_t c) { sent.append(reinterpret_cast<const char*>(b), c); onSend(*this); }
	size_t sendRawNonBlocking(const vmime::byte_t* b, const size_t c) { sendRaw(b, c); return c; }
	size_t getBlockSize() const { return 16384; }
	unsigned int getStatus() const { return in.empty() ? STATUS_WANT_READ : 0; }
	const vmime::string getPeerName() const { return "peer"; }
	const vmime::string getPeerAddress() const { return "0.0.0.0"; }
	vmime::shared_ptr<vmime::net::timeoutHandler> getTimeoutHandler() { return vmime::shared_ptr<vmime::net::timeoutHandler>(); }
	void setTracer(const vmime::shared_ptr<vmime::net::tracer>&) {}
	vmime::shared_ptr<vmime::net::tracer> getTracer() { return vmime::shared_ptr<vmime::net::tracer>(); }
};
class OneSocket : public vmime::net::socketFactory {
public:
	vmime::shared_ptr<FakeSocket> s;
	vmime::shared_ptr<vmime::net::socket> create() { return s; }
	vmime::shared_ptr<vmime::net::socket> create(const vmime::shared_ptr<vmime::net::timeoutHandler>&) { return s; }
};
// schedule that also holds "nothing yet"
inline std::vector<size_t> nsched(Run& r, int kind) { auto v = sched(r, kind); if (kind > 3 && r.rnd(2)) v.insert(v.begin() + r.rnd(v.size() + 1), 0); return v; }
}
