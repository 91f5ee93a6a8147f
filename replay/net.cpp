#include "net.hpp"
#include "vmime/net/smtp/SMTPResponse.hpp"
#include "vmime/net/smtp/SMTPConnection.hpp"
#include "vmime/net/smtp/SMTPTransport.hpp"
#include "vmime/net/smtp/SMTPChunkingOutputStreamAdapter.hpp"
#include "vmime/net/pop3/POP3Connection.hpp"
#include "vmime/net/pop3/POP3Store.hpp"
#include "vmime/net/pop3/POP3Response.hpp"
#include "vmime/utility/progressListener.hpp"
using namespace rp;
using namespace vmime::net;
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n'; }
static std::string trim(std::string s) { while (!s.empty() && ws(s[0])) s.erase(0, 1); while (!s.empty() && ws(s[s.size() - 1])) s.erase(s.size() - 1); return s; }
static std::vector<std::string> lines(const std::string& t) { std::vector<std::string> v; size_t p = 0, q; while ((q = t.find('\n', p)) != std::string::npos) { std::string l = t.substr(p, q - p); if (!l.empty() && l[l.size() - 1] == '\r') l.erase(l.size() - 1); v.push_back(l); p = q + 1; } return v; }
static bool dig(const std::string& t, size_t p) { return p < t.size() && t[p] >= '0' && t[p] <= '9'; }
static std::string enh(const std::string& t) {
	unsigned v[3] = {0, 0, 0}; size_t p = 0;
	for (int i = 0; i < 3; ++i) {
		if (i) { if (p >= t.size() || t[p] != '.') return "0.0.0"; ++p; }
		if (!dig(t, p)) return "0.0.0";
		unsigned long n = 0; bool over = false; while (dig(t, p)) { n = n * 10 + (t[p++] - '0'); if (n > 65535) { over = true; n = 65536; } }
		v[i] = over ? 65535 : static_cast<unsigned>(n);
		if (over) p = t.size();     // nothing can be read after an overflow
	}
	return std::to_string(v[0]) + "." + std::to_string(v[1]) + "." + std::to_string(v[2]);
}
static std::string es(const smtp::SMTPResponse::enhancedStatusCode& e) { return std::to_string(e.klass) + "." + std::to_string(e.subject) + "." + std::to_string(e.detail); }
static int code(const std::string& l) { return l.size() >= 3 ? (l[0] - '0') * 100 + (l[1] - '0') * 10 + (l[2] - '0') : 0; }
// C33: t = complete responses, read one after the other
static void c33(Run& r, const std::string& t, const std::vector<size_t>& s) {
	r.begin("SMTP replies receive=" + schedStr(s) + " text(" + std::to_string(t.size()) + ")=" + hex(t), !t.empty());
	auto ls = lines(t); size_t p = 0; auto sok = vmime::make_shared<FakeSocket>(); sok->in = t; sok->s = s;
	smtp::SMTPResponse::state st; vmime::shared_ptr<smtp::SMTPResponse> resp;
	while (p < ls.size()) {
		size_t q = p; while (q < ls.size() && ls[q].size() >= 4 && ls[q][3] == '-') ++q;
		if (q == ls.size()) break;
		try { resp = smtp::SMTPResponse::readResponse(vmime::shared_ptr<tracer>(), sok, vmime::shared_ptr<timeoutHandler>(), st); }
		catch (FakeSocket::Starved&) { r.fail("starved", "waits for more although the reply is complete at line " + std::to_string(p)); return; }
		st = resp->getCurrentState();
		std::string text, last; int c = code(ls[p]); bool same = true;
		if (!r.check(resp->getLineCount() == q - p + 1, "lines", std::to_string(resp->getLineCount()) + " lines instead of " + std::to_string(q - p + 1))) return;
		for (size_t i = p; i <= q; ++i) {
			std::string x = ls[i].size() > 4 ? trim(ls[i].substr(4)) : ""; if (i > p) text += "\n"; text += x; last = x; same &= code(ls[i]) == c;
			auto l = resp->getLineAt(i - p);
			r.check(l.getCode() == code(ls[i]), "line-code", "line " + std::to_string(i) + " code " + std::to_string(l.getCode()));
			r.check(l.getText() == x, "line-text", "line " + std::to_string(i) + " text " + hex(l.getText()));
			r.check(es(l.getEnhancedCode()) == enh(x), "enhanced", "line " + std::to_string(i) + " enhanced code " + es(l.getEnhancedCode()) + " instead of " + enh(x));
		}
		r.check(resp->getCode() == (same ? c : 0), "code", "code " + std::to_string(resp->getCode()));
		r.check(resp->getText() == text, "text", "text " + hex(resp->getText()) + " instead of " + hex(text));
		r.check(es(resp->getEnhancedCode()) == enh(last), "enhanced", "enhanced code " + es(resp->getEnhancedCode()));
		r.check(resp->getLastLine().getText() == last, "last", "last line " + hex(resp->getLastLine().getText()));
		p = q + 1;
	}
	std::string rest; size_t o = 0, n = 0; while (n < p && (o = t.find('\n', o)) != std::string::npos) { ++o; ++n; } rest = t.substr(std::min(o, t.size()));
	r.check(st.responseBuffer + sok->in == rest, "lost", "left over " + hex(st.responseBuffer + sok->in) + " instead of " + hex(rest));
}
// C32
struct Prog : vmime::utility::progressListener { size_t last = 0, starts = 0, stops = 0; bool back = false; void start(const size_t) { starts++; } void progress(const size_t c, const size_t) { if (c < last) back = true; last = c; } void stop(const size_t) { stops++; } };
struct Server {
	size_t at = 0, need = 0, bdats = 0, lasts = 0, unread = 0; bool pipe = false, inb = false, lastf = false, early = false, bad = false, tail = false; std::string body; int refuse = -1; bool greeted = false;
	void go(FakeSocket& s) {
		if (!greeted) { greeted = true; s.in += "220 ready\r\n"; }
		for (;;) {
			if (inb) { size_t n = std::min(need, s.sent.size() - at); body += s.sent.substr(at, n); at += n; need -= n; if (need) return; inb = false; s.in += static_cast<int>(bdats) - 1 == refuse ? "552 5.2.2 too much\r\n" : "250 " + std::to_string(bdats) + " ok\r\n"; }
			size_t e = s.sent.find("\r\n", at); if (e == std::string::npos) return;
			std::string l = s.sent.substr(at, e - at); at = e + 2;
			if (l.compare(0, 4, "EHLO") == 0) s.in += std::string("250-host\r\n") + (pipe ? "250-PIPELINING\r\n" : "") + "250 CHUNKING\r\n";
			else if (l.compare(0, 5, "BDAT ") == 0) {
				if (!pipe && !s.in.empty()) early = true;      // the reply to the previous chunk was not read
				char* z; need = strtoul(l.c_str() + 5, &z, 10); std::string f = z; if (lasts) tail = true;
				if (f == " LAST") lasts++; else if (!f.empty()) bad = true;
				bdats++; inb = true;
			} else if (l == "QUIT") s.in += "221 bye\r\n";
			else { bad = true; s.in += "500 what\r\n"; }
		}
	}
};
static void c32(Run& r, const std::string& w, const std::vector<size_t>& cut, const std::vector<size_t>& s, bool pipe, int refuse, bool prog) {
	r.begin("BDAT writes=" + schedStr(cut) + " receive=" + schedStr(s) + (pipe ? " PIPELINING" : "") + (prog ? " progress" : "") + " refuse=" + std::to_string(refuse) + " data(" + std::to_string(w.size()) + ")=" + hex(w, 60), !w.empty());
	auto sv = std::make_shared<Server>(); sv->pipe = pipe; sv->refuse = refuse;
	auto f = vmime::make_shared<OneSocket>(); f->s = vmime::make_shared<FakeSocket>(); f->s->s = s; f->s->onSend = [sv](FakeSocket& k) { sv->go(k); };
	auto ses = session::create(); ses->getProperties()["transport.smtp.server.address"] = "h";
	auto tr = vmime::dynamicCast<smtp::SMTPTransport>(ses->getTransport(vmime::utility::url("smtp://h"))); tr->setSocketFactory(f);
	tr->connect();
	bool threw = false; Prog pl;
	{
		smtp::SMTPChunkingOutputStreamAdapter os(tr->getConnection(), w.size(), prog ? &pl : nullptr);
		try {
			size_t p = 0, k = 0; while (p < w.size()) { size_t n = cut.empty() ? w.size() : std::max<size_t>(1, cut[k++ % cut.size()]); n = std::min(n, w.size() - p); std::string c = w.substr(p, n); os.write(reinterpret_cast<const vmime::byte_t*>(c.data()), c.size()); p += n; }
			os.flush();
		} catch (vmime::exceptions::command_error& e) { threw = true; r.check(std::string(e.command()) == "BDAT", "error", "error reported for " + e.command()); }
		catch (FakeSocket::Starved&) { r.fail("starved", "waits for a reply the server has no reason to send"); return; }
	}
	bool refused = refuse >= 0 && static_cast<size_t>(refuse) < sv->bdats;
	r.check(threw == refused, "refusal", threw ? "error although every chunk was accepted" : "a chunk was refused and nobody is told");
	r.check(!sv->bad && !sv->tail, "commands", "the server sees something that is not a BDAT command, or a chunk after the last");
	r.check(!sv->early, "order", "next chunk sent before the reply to the previous one was read");
	if (!refused) {
		r.check(sv->body == w, "payload", "the server gets " + std::to_string(sv->body.size()) + " bytes " + hex(sv->body, 60));
		r.check(sv->lasts == 1, "last", std::to_string(sv->lasts) + " last chunks");
		r.check(f->s->in.empty() && !sv->inb, "replies", "replies left unread: " + hex(f->s->in));
		if (prog) r.check(pl.starts == 1 && pl.stops == 1 && pl.last == w.size() && !pl.back, "progress", "progress ends at " + std::to_string(pl.last));
	} else r.check(!tr->isConnected(), "disconnect", "still connected after a refused chunk");
}
// C34
struct Store : pop3::POP3Store { Store() : POP3Store(session::create(), vmime::shared_ptr<vmime::security::authenticator>()) {} };
struct Conn : pop3::POP3Connection {
	vmime::shared_ptr<vmime::net::socket> s;
	Conn(const vmime::shared_ptr<pop3::POP3Store>& st, const vmime::shared_ptr<FakeSocket>& k) : POP3Connection(st, vmime::shared_ptr<vmime::security::authenticator>()), s(k) {}
	vmime::shared_ptr<vmime::net::socket> getSocket() { return s; }
	vmime::shared_ptr<timeoutHandler> getTimeoutHandler() { return vmime::shared_ptr<timeoutHandler>(); }
};
static vmime::shared_ptr<pop3::POP3Store> pstore;
static int pcode(const std::string& l) { if (l.size() >= 2 && l[0] == '+' && (l[1] == ' ' || l[1] == '\t')) return pop3::POP3Response::CODE_READY; if (l.size() >= 3 && l[0] == '+' && (l[1] == 'O' || l[1] == 'o') && (l[2] == 'K' || l[2] == 'k')) return pop3::POP3Response::CODE_OK; return pop3::POP3Response::CODE_ERR; }
static std::string ptext(const std::string& l) { size_t p = l.find_first_of(" \t"); return p == std::string::npos ? l : l.substr(p + 1); }
static std::string stuff(const std::string& w) { std::string t; for (size_t i = 0; i < w.size(); ++i) { t += w[i]; if (w[i] == '\n' && i + 1 < w.size() && w[i + 1] == '.') t += '.'; } return t; }
static void c34(Run& r, const std::string& l, const std::string& m, const std::vector<size_t>& s) {
	r.begin("POP3 reply receive=" + schedStr(s) + " line=" + hex(l) + " message(" + std::to_string(m.size()) + ")=" + hex(m), !m.empty());
	if (!pstore) pstore = vmime::make_shared<Store>();
	auto mk = [&](const std::string& t) { auto k = vmime::make_shared<FakeSocket>(); k->in = t; k->s = s; return k; };
	try {
		auto k = mk(l + "\r\n"); auto p = pop3::POP3Response::readResponse(vmime::make_shared<Conn>(pstore, k));
		r.check(p->getFirstLine() == l, "line", "first line " + hex(p->getFirstLine()));
		r.check(p->getCode() == pcode(l) && p->isSuccess() == (pcode(l) == pop3::POP3Response::CODE_OK), "code", "code " + std::to_string(p->getCode()));
		r.check(p->getText() == ptext(l), "text", "text " + hex(p->getText()));
		r.check(k->in.empty(), "left", "left over " + hex(k->in));
	} catch (FakeSocket::Starved&) { r.fail("starved", "waits for more although the one-line reply is complete"); }
	bool err = !l.empty() && l[0] == '-';
	if (err && l.size() < 2) return;
	try {
		std::string all = l + "\r\n" + m; auto k = mk(err ? l + "\r\n" : stuff(all) + "\r\n.\r\n"); auto p = pop3::POP3Response::readMultilineResponse(vmime::make_shared<Conn>(pstore, k));
		r.check(p->getFirstLine() == trim(l), "multi-line", "first line " + hex(p->getFirstLine()));
		r.check(p->getCode() == pcode(trim(l)) && p->getText() == ptext(trim(l)), "multi-code", "code " + std::to_string(p->getCode()) + " text " + hex(p->getText()));
		std::vector<std::string> e; if (!err) { std::string x; for (char c : m) if (c == '\n') { e.push_back(trim(x)); x.clear(); } else x += c; if (!x.empty()) e.push_back(trim(x)); }
		std::string g, w; for (size_t i = 0; i < p->getLineCount(); ++i) g += p->getLineAt(i) + "|"; for (auto& x : e) w += x + "|";
		r.check(p->getLineCount() == e.size() && g == w, "multi", "lines " + hex(g) + " instead of " + hex(w));
		r.check(k->in.empty(), "multi-left", "left over " + hex(k->in));
	} catch (FakeSocket::Starved&) { r.fail("multi-starved", "waits for more although the reply is complete"); }
	if (err) try {
		auto k = mk(l + "\r\n"); StrOutput os; bool threw = false;
		try { pop3::POP3Response::readLargeResponse(vmime::make_shared<Conn>(pstore, k), os, nullptr, m.size()); } catch (vmime::exceptions::command_error&) { threw = true; }
		r.check(threw && os.s.empty(), "large-refused", "a refused retrieval is not reported");
	} catch (FakeSocket::Starved&) { r.fail("large-error", "an error reply to a retrieval is not seen: waits for more although the reply is complete"); }
	if (pcode(trim(l)) == pop3::POP3Response::CODE_OK && l == trim(l)) try {
		auto k = mk(stuff(l + "\r\n" + m) + "\r\n.\r\n"); StrOutput os; auto p = pop3::POP3Response::readLargeResponse(vmime::make_shared<Conn>(pstore, k), os, nullptr, m.size());
		r.check(p->getFirstLine() == l && p->isSuccess(), "large-line", "first line " + hex(p->getFirstLine()));
		r.check(os.s == m, "large", "message received as " + hex(os.s));
	} catch (FakeSocket::Starved&) { r.fail("large-starved", "waits for more although the reply is complete"); }
}
int main(int argc, char** argv) {
	Run r(argc, argv); size_t k = 0;
	if (r.prop == "C33") {
		r.rule = "all texts over {2 5 - space . CR LF a} up to length 5 (quick) / 7 after '250', all at once and byte by byte; random sequences of complete replies, with enhanced codes, continuation lines, bare LF and CRLF, delivered in random pieces with empty receives. Non-trivial: non-empty text.";
		r.allStrings("25-. \r\n", r.thorough ? 7 : 5, [&](const std::string& w) { c33(r, "250" + w + "\n", {1}); c33(r, "250" + w + "\r\n220 x\r\n", {}); if (++k % 3 == 0) c33(r, w + "\r\n", {2}); });
		while (r.time()) {
			static const char* parts[] = {"250", "-", " ", "2.1.5", "5.7.1", "66000.1.1", "1.2", "OK done", "\t", "1.23.456", ".", "999", "354", "25"};
			std::string t; size_t n = 1 + r.rnd(6);
			for (size_t i = 0; i < n; ++i) { if (r.rnd(5)) { t += std::to_string(200 + r.rnd(400)); t += r.rnd(2) ? "-" : " "; } size_t m = r.rnd(5); for (size_t j = 0; j < m; ++j) t += parts[r.rnd(14)]; if (r.rnd(9) == 0) t += r.bytes(r.rnd(4), "\x80\xff\r a"); t += r.rnd(6) ? "\r\n" : "\n"; }
			c33(r, t, nsched(r, r.rnd(7)));
		}
	} else if (r.prop == "C32") {
		const size_t B = 262144;
		r.rule = "payloads of 0, 1, B-1, B, B+1, 2B-1..2B+1, 3B bytes (B = the adapter's block size), all at once and in pieces, with and without PIPELINING and progress, every chunk accepted or one refused; random sizes up to 4B cut at random. Non-trivial: non-empty data.";
		std::string big = r.bytes(4 * B + 9);
		for (size_t n : {size_t(0), size_t(1), size_t(1000), B - 1, B, B + 1, 2 * B - 1, 2 * B, 2 * B + 1, 3 * B}) for (int pipe = 0; pipe < 2; ++pipe) for (int refuse = -1; refuse < 3; ++refuse) { k++; c32(r, big.substr(0, n), {}, {}, pipe, refuse, k % 2); if (refuse < 0) { c32(r, big.substr(0, n), {B - 7}, {1}, pipe, refuse, k % 2); c32(r, big.substr(0, n), {B, 1}, {3}, pipe, refuse, true); } }
		while (r.time()) { size_t n = r.rnd(4) ? r.rnd(4 * B + 9) : (1 + r.rnd(4)) * B - 1 + r.rnd(3); std::vector<size_t> cut; size_t c = r.rnd(4); for (size_t i = 0; i < c; ++i) cut.push_back(r.rnd(3) ? 1 + r.rnd(2 * B) : B); c32(r, big.substr(0, n), cut, nsched(r, r.rnd(7)), r.rnd(2), static_cast<int>(r.rnd(9)) - 5, r.rnd(2)); }
	} else {
		r.rule = "first lines good, bad and odd; all messages over {. CR LF a} up to length 5 (quick) / 7 at once, byte by byte and in pieces of two and three; random messages of dots, line ends and letters in random pieces with empty receives. Non-trivial: non-empty message.";
		const char* ls[] = {"+OK", "+OK done", "-ERR no", "-ERR", "+ok x", "+oK y", "+Ok", "+ next", "+", "", "OK", "+OX", "+xk", "+okay", "-e", "+OK\tt a", "x"};
		for (auto l : ls) for (auto m : {"", "a", "a\r\n.b\r\n", ".", "..\r\n.\r\n..."}) { c34(r, l, m, {}); c34(r, l, m, {1}); c34(r, l, m, {0, 2}); }
		r.allStrings(".\r\na", r.thorough ? 7 : 5, [&](const std::string& m) { c34(r, "+OK", m, {1}); c34(r, "+OK", m, {}); if (++k % 2) c34(r, "+OK x", m, {2}); else c34(r, "+OK", m, {7, 1}); c34(r, "+OK", m, nsched(r, 5)); });
		while (r.time()) {
			static const char* parts[] = {"\r\n", "\r\n.", "\r\n..", ".", "\r", "\n", "ab", "\n.", "\r\n.\r", "text text", "\r\n.a", "\n.\n", "\r\n.\r\n"};
			std::string m; size_t n = r.rnd(20); for (size_t i = 0; i < n; ++i) m += r.rnd(4) ? parts[r.rnd(13)] : r.bytes(1);
			if (r.rnd(200) == 0) { std::string x = m; while (m.size() < 70000) m += x + "y"; }
			c34(r, ls[r.rnd(3)], m, nsched(r, r.rnd(7)));
		}
	}
	return r.finish();
}
