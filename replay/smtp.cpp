#include "net.hpp"
#include "vmime/vmime.hpp"
#include "vmime/platforms/posix/posixHandler.hpp"
#include "vmime/net/smtp/smtp.hpp"
using namespace rp;
using namespace vmime::net;
using vmime::string; using vmime::shared_ptr;
struct Mail { string from; std::vector<string> to; string data; };
// what the server answers to the commands of a transaction (0: nothing in time), and what fails on the side of the client
struct Plan {
	int mail = 250, data = 354, fin = 250; std::vector<int> rcpt; long streamFail = -1; int progFail = -1;
	bool good() const { if (mail != 250 || data != 354 || fin != 250 || streamFail >= 0 || progFail >= 0) return false; for (int c : rcpt) if (c != 250 && c != 251) return false; return true; }
	bool silent() const { if (!mail || !data || !fin) return true; for (int c : rcpt) if (!c) return true; return false; }
	string str() const { string s = "MAIL " + std::to_string(mail) + " RCPT"; for (int c : rcpt) s += " " + std::to_string(c); s += " DATA " + std::to_string(data) + " end " + std::to_string(fin); if (streamFail >= 0) s += " stream fails at " + std::to_string(streamFail); if (progFail >= 0) s += " listener fails at " + std::to_string(progFail); return s; }
};
struct Peer {
	bool pipe = false, chunk = false, lax = false, size = false, utf8 = false, rset200 = false; Plan p; std::vector<Mail>* box = nullptr;
	size_t at = 0; bool greeted = false, inMail = false, inData = false, inb = false, last = false, closed = false; Mail m; size_t nr = 0, need = 0; string body, late, bad; std::vector<string> seen; string refused; int refusedCode = 0;
	void out(FakeSocket& s, int code, const string& cmd) {
		string l = code ? std::to_string(code) + " " + (code / 100 <= 3 ? "ok" : "no") + "\r\n" : "250 late\r\n";
		if (code && !late.empty() && !refusedCode) refused.clear();      // the late reply arrives now
		if (refused.empty() && code / 100 != 2 && code != 354) { refused = cmd; refusedCode = code; }
		if (!code) late += l; else { s.in += late; late.clear(); s.in += l; }
	}
	void accept() { box->push_back(m); inMail = false; m = Mail(); }
	void go(FakeSocket& s) {
		if (!greeted) { greeted = true; s.in += "220 ready\r\n"; }
		for (;;) {
			if (inb) { size_t n = std::min(need, s.sent.size() - at); body += s.sent.substr(at, n); at += n; need -= n; if (need) return; inb = false; if (last) { m.data = body; int c = m.to.empty() ? 503 : p.fin; out(s, c, "BDAT"); if (c == 250) accept(); } else out(s, m.to.empty() ? 503 : 250, "BDAT"); continue; }
			size_t e = s.sent.find("\r\n", at); if (e == string::npos) return;
			string l = s.sent.substr(at, e - at); at = e + 2;
			if (inData) {
				if (l == ".") { inData = false; m.data = body; out(s, p.fin, "DATA"); if (p.fin == 250 || p.fin == 0) accept(); else { inMail = false; } }
				else body += (l[0] == '.' ? l.substr(1) : l) + "\r\n";
				continue;
			}
			if (!pipe && !s.in.empty() && l != "QUIT") bad = "a command is sent before the reply to the previous one was read";
			seen.push_back(l); string c = l.substr(0, 4);
			if (c == "EHLO") s.in += string("250-host\r\n") + (pipe ? "250-PIPELINING\r\n" : "") + (chunk ? "250-CHUNKING\r\n" : "") + (size ? "250-SIZE 1000000\r\n" : "") + (utf8 ? "250-SMTPUTF8\r\n" : "") + "250 HELP\r\n";
			else if (c == "NOOP") out(s, 250, l);
			else if (c == "QUIT") { closed = true; s.in += "221 bye\r\n"; }
			else if (c == "RSET") { inMail = false; m = Mail(); out(s, rset200 ? 200 : 250, l); }
			else if (c == "MAIL") {
				if (inMail) { bad = "MAIL within a transaction"; out(s, 503, l); continue; }
				size_t a = l.find('<'), b = l.find('>'); m = Mail(); m.from = b == string::npos ? "?" : l.substr(a + 1, b - a - 1); nr = 0; out(s, p.mail, l); if (p.mail == 250 || p.mail == 0) inMail = true; body.clear();
			} else if (c == "RCPT") {
				if (!inMail) { out(s, 503, l); continue; }
				int k = nr < p.rcpt.size() ? p.rcpt[nr] : 250; nr++; size_t a = l.find('<'), b = l.find('>'); if (k == 250 || k == 251 || k == 0) m.to.push_back(b == string::npos ? "?" : l.substr(a + 1, b - a - 1)); out(s, k, l);
			} else if (c == "DATA") {
				int k = !inMail ? 503 : m.to.empty() && !lax ? 554 : p.data; body.clear(); if (lax && !inMail) k = 354; out(s, k, l); if (k == 354) inData = true;
			} else if (c == "BDAT") { if (!chunk) bad = "BDAT although CHUNKING was not offered"; char* z; need = strtoul(l.c_str() + 5, &z, 10); last = string(z) == " LAST"; inb = true; }
			else { bad = "not a command: " + hex(l, 80); out(s, 500, l); }
		}
	}
};
struct Th : timeoutHandler { int n = 0; bool isTimeOut() { return ++n > 30; } void resetTimeOut() { n = 0; } bool handleTimeOut() { return false; } };
struct ThF : timeoutHandlerFactory { shared_ptr<timeoutHandler> create() { return vmime::make_shared<Th>(); } };
struct Boom { };
struct Prog : vmime::utility::progressListener { int left; Prog(int n) : left(n) {} void start(const size_t) {} void progress(const size_t, const size_t) { if (left >= 0 && left-- == 0) throw Boom(); } void stop(const size_t) {} };
struct In : vmime::utility::inputStream {
	string t; size_t p = 0, step; long fail;
	In(const string& t_, size_t s, long f) : t(t_), step(s), fail(f < 0 ? f : std::min(f, static_cast<long>(t_.size()))) {}
	bool eof() const { return p >= t.size() && fail < 0; }
	void reset() { p = 0; }
	size_t read(vmime::byte_t* b, const size_t n) { if (fail >= 0 && p >= static_cast<size_t>(fail)) throw Boom(); size_t k = std::min({n, t.size() - p, step}); if (fail >= 0) k = std::min(k, static_cast<size_t>(fail) - p); memcpy(b, t.data() + p, k); p += k; return k; }
	size_t skip(const size_t n) { size_t k = std::min(n, t.size() - p); p += k; return k; }
};
// one history: several messages sent by one client, one after another
static void history(Run& r, bool pipe, bool chunk, bool lax, bool usepipe, unsigned seed, const std::vector<Plan>& plans, bool asMsg) {
	std::mt19937 g(seed); auto rnd = [&](size_t n) { return static_cast<size_t>(g() % n); };
	string d = string("SMTP") + (pipe ? " PIPELINING" : "") + (usepipe ? "" : " (disabled)") + (chunk ? " CHUNKING" : "") + (lax ? " lax" : "") + (asMsg ? " message" : " stream") + " seed=" + std::to_string(seed); for (auto& p : plans) d += "; " + p.str();
	r.begin(d, true);
	std::vector<Mail> box; shared_ptr<smtp::SMTPTransport> tr; std::shared_ptr<Peer> pe; shared_ptr<OneSocket> f; auto conf = [&](Peer& q) { q.pipe = pipe; q.chunk = chunk; q.lax = lax; q.size = seed & 1; q.utf8 = seed & 2; q.rset200 = seed & 4; q.box = &box; };
	for (size_t i = 0; i < plans.size(); i++) {
		const Plan& p = plans[i]; string when = " (message " + std::to_string(i + 1) + ")";
		try {
			if (!tr || !tr->isConnected()) {
				pe = std::make_shared<Peer>(); conf(*pe); f = vmime::make_shared<OneSocket>(); f->s = vmime::make_shared<FakeSocket>(); std::weak_ptr<Peer> w = pe; auto keep = pe; f->s->onSend = [keep](FakeSocket& k) { keep->go(k); };
				if (seed & 8) f->s->s = {4 + rnd(9), 0, 5 + rnd(40)};
				auto ses = session::create(); ses->getProperties()["transport.smtp.server.address"] = "h"; ses->getProperties()["transport.smtp.options.pipelining"] = usepipe;
				tr = vmime::dynamicCast<smtp::SMTPTransport>(ses->getTransport(vmime::utility::url("smtp://h"))); tr->setSocketFactory(f); tr->setTimeoutHandlerFactory(vmime::make_shared<ThF>()); tr->connect();
			} else if (rnd(3) == 0) tr->noop();
		} catch (vmime::exception& e) { r.fail("idle", string("connect() or noop() fails: ") + e.what() + when); return; }
		pe->p = p; pe->refused.clear(); pe->refusedCode = 0;
		Mail want; vmime::mailbox from("a" + std::to_string(i) + "@x.example"), snd; bool useS = rnd(2); if (useS) snd = vmime::mailbox("s" + std::to_string(i) + "@x.example"); want.from = useS ? "s" + std::to_string(i) + "@x.example" : "a" + std::to_string(i) + "@x.example";
		vmime::mailboxList to; for (size_t k = 0; k < p.rcpt.size(); k++) { string a = "r" + std::to_string(i) + std::to_string(k) + "@y.example"; to.appendMailbox(vmime::make_shared<vmime::mailbox>(a)); want.to.push_back(a); }
		string text = "Subject: m" + std::to_string(i) + "\r\n\r\n"; static const char* L[] = { ".", "..", "abc", "", ".x", "QUIT", "DATA", "long long long long line" }; for (size_t k = rnd(6); k > 0; k--) { text += L[rnd(8)]; text += "\r\n"; }
		size_t boxed = box.size(); int threw = 0; string what, cmd; int code = 0; Prog pl(p.progFail);
		try {
			if (asMsg) { auto m = vmime::make_shared<vmime::message>(); m->parse(text); std::ostringstream o; vmime::utility::outputStreamAdapter oa(o); vmime::generationContext ctx(vmime::generationContext::getDefaultContext()); ctx.setInternationalizedEmailSupport(pe->utf8); m->generate(ctx, oa); want.data = o.str(); if (!chunk) want.data += "\r\n"; tr->send(m, from, to, &pl, snd); }
			else { want.data = text + "\r\n"; In in(text, 1 + rnd(30), p.streamFail); tr->send(from, to, in, text.size(), rnd(2) || p.progFail >= 0 ? &pl : nullptr, snd); }
		} catch (smtp::SMTPCommandError& e) { threw = 1; what = e.what(); cmd = e.command(); code = e.statusCode(); }
		catch (smtp::SMTPMessageSizeExceedsCurLimitsException& e) { threw = 2; code = 452; }
		catch (smtp::SMTPMessageSizeExceedsMaxLimitsException& e) { threw = 2; code = 552; }
		catch (vmime::exceptions::command_error& e) { threw = 1; what = e.what(); cmd = e.command(); code = pe->refusedCode; }
		catch (vmime::exceptions::operation_timed_out&) { threw = 3; }
		catch (FakeSocket::Starved&) { threw = 3; }
		catch (vmime::exception& e) { threw = 4; what = e.what(); }
		catch (Boom&) { threw = 5; }
		bool boom = (p.streamFail >= 0 && !asMsg) || (p.progFail >= 0);
		r.check(pe->bad.empty(), "protocol", pe->bad + when);
		if (!threw) {
			bool all = box.size() == boxed + 1 && box.back().from == want.from && box.back().to == want.to && box.back().data == want.data;
			r.check(all, "sent", "send() returns" + when + " and the server has " + (box.size() == boxed ? "accepted nothing" : "the message from " + box.back().from + " to " + std::to_string(box.back().to.size()) + " recipients: " + hex(box.back().data, 80) + " instead of " + hex(want.data, 80)));
		} else {
			r.check(!p.good() || threw == 5, "refused", "send() fails although the server accepts everything" + when + ": " + what + " " + std::to_string(threw));
			r.check(box.size() == boxed || !p.fin || (threw == 5 && asMsg && chunk), "failed", "send() fails" + when + " and the server has accepted the message");
			if (box.size() > boxed && !p.fin) r.check(box.back().from == want.from && box.back().to == want.to && box.back().data == want.data, "sent", "the server has accepted another message" + when);
			if (threw == 3) r.check(p.silent(), "wait", "waits for a reply that is not due" + when);
			if (threw == 5) r.check(boom, "other", "exception of the client");
			if (threw == 4) r.fail("other", "unexpected exception" + when + ": " + what);
			if (threw <= 2 && !pe->refused.empty()) r.check(code == pe->refusedCode && (threw == 2 || cmd == pe->refused), "reply", "the error says " + cmd + " " + std::to_string(code) + when + "; the server has refused " + pe->refused + " with " + std::to_string(pe->refusedCode));
			if (threw <= 2) r.check(!pe->refused.empty(), "reply", "the error says " + cmd + " " + std::to_string(code) + when + "; the server has refused nothing");
		}
		if (tr->isConnected()) {
			r.check(f->s->in.empty() && pe->late.empty(), "unread", "replies are left unread on the connection" + when + ": " + hex(f->s->in + pe->late, 60));
			r.check(!pe->inData && !pe->inb, "datamode", "the connection is kept although the server is waiting for message data" + when);
		} else r.check(threw != 0, "closed", "the connection is closed after a message was sent" + when);
	}
}
int main(int argc, char** argv) {
	Run r(argc, argv);
	r.rule = "every refusal (MAIL, each RCPT, DATA, end of data), missing reply, failing stream or listener in one message out of two or three, with and without PIPELINING, CHUNKING, a server that answers 354 whatever happens; random histories";
	vmime::platform::setHandler<vmime::platforms::posix::posixHandler>();
	for (int go = 0; go < 2; go++)
	for (int fl = 0; fl < 16; fl++) for (int am = 0; am < 2; am++) for (size_t n = 1; n <= (go ? 2u : 3u); n++) {
		bool pipe = fl & 1, chunk = fl & 2, lax = fl & 4, up = !(fl & 8); std::vector<Plan> ps; Plan g; g.rcpt.assign(n, 250); ps.push_back(g);
		for (int c : {250, 452, 552, 550, 0}) { Plan p = g; p.mail = c; ps.push_back(p); }
		for (size_t k = 0; k < n; k++) for (int c : {251, 450, 451, 452, 552, 550, 554, 0}) { Plan p = g; p.rcpt[k] = c; ps.push_back(p); }
		for (int c : {554, 451, 0}) { Plan p = g; p.data = c; if (!(am && chunk)) ps.push_back(p); }
		for (int c : {554, 452, 0}) { Plan p = g; p.fin = c; ps.push_back(p); }
		if (!am) for (long c : {0L, 3L, 20L}) { Plan p = g; p.streamFail = c; ps.push_back(p); }
		{ Plan p = g; p.progFail = 0; ps.push_back(p); }
		for (size_t k = 0; k < ps.size(); k++) { unsigned seed = static_cast<unsigned>(r.rnd(1000)); if (go == 0) history(r, pipe, chunk, lax, up, seed, { ps[k], g }, am); else { history(r, pipe, chunk, lax, up, seed, { g, ps[k], g }, am); history(r, pipe, chunk, lax, up, seed + 1, { ps[k], ps[k], g }, am); } }
	}
	while (r.time()) {
		std::vector<Plan> ps;
		for (size_t i = 2 + r.rnd(3); i > 0; i--) {
			Plan p; p.rcpt.assign(1 + r.rnd(4), 250); static const int B[] = { 452, 552, 550, 0, 421, 450, 451, 554, 553 };
			switch (r.rnd(6)) { case 0: p.mail = [&] { size_t k = r.rnd(8); return B[k < 4 ? k : k + 1]; }(); break; case 1: for (auto& c : p.rcpt) if (r.rnd(2)) c = [&] { size_t k = r.rnd(8); return B[k < 4 ? k : k + 1]; }(); break; case 2: p.data = [&] { size_t k = r.rnd(8); return B[k < 4 ? k : k + 1]; }(); break; case 3: p.fin = [&] { size_t k = r.rnd(8); return B[k < 4 ? k : k + 1]; }(); break; case 4: if (r.rnd(2)) p.streamFail = static_cast<long>(r.rnd(30)); else p.progFail = static_cast<int>(r.rnd(3)); break; default: break; }
			ps.push_back(p);
		}
		bool am = r.rnd(2); bool chunk = r.rnd(2); if (am) for (auto& p : ps) { p.streamFail = -1; if (chunk && p.data != 354) p.data = 354; }
		history(r, r.rnd(2), chunk, r.rnd(2), r.rnd(3), static_cast<unsigned>(r.rnd(1000000)), ps, am);
	}
	return r.finish();
}
