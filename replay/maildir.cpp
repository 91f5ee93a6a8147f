// C22: the folders of a Maildir store (both layouts), over a file system in memory. C24: the messages of a folder.
#include "memfs.hpp"
#include "vmime/net/maildir/maildir.hpp"
using namespace rp;
namespace nt = vmime::net;
typedef std::vector<std::string> FP;
typedef vmime::shared_ptr<nt::folder> Fld;
static FP names(const nt::folder::path& p) { FP v; for (size_t i = 0; i < p.getSize(); ++i) v.push_back(p[i].getConvertedText(vmime::charsets::UTF_8)); return v; }
static nt::folder::path pathOf(const FP& v) { nt::folder::path p; for (auto& s : v) p /= nt::folder::path::component(s, vmime::charsets::UTF_8); return p; }
static std::string show(const FP& v) { std::string s = "["; for (auto& x : v) s += (s.size() > 1 ? " / " : "") + hex(x); return s + "]"; }
static std::string show(const std::vector<FP>& v) { std::string s; for (auto& x : v) s += show(x) + " "; return s; }
static bool below(const FP& r, const FP& q) { return q.size() > r.size() && std::equal(r.begin(), r.end(), q.begin()); }
static std::vector<FP> sorted(std::vector<FP> v) { std::sort(v.begin(), v.end()); return v; }
static std::vector<FP> pathsOf(const std::vector<Fld>& v) { std::vector<FP> r; for (auto& f : v) r.push_back(names(f->getFullPath())); return sorted(r); }
static vmime::shared_ptr<nt::store> openStore() {
	auto sess = nt::session::create(); auto st = sess->getStore(vmime::utility::url("maildir://localhost/store")); st->connect(); return st;
}
static std::string text(int id) { return "Subject: message " + std::to_string(id) + "\r\n\r\nbody " + std::string(id % 40, static_cast<char>('a' + id % 26)) + "\r\n"; }
static void put(const Fld& f, const std::string& s, int flags = -1) { vmime::utility::inputStreamStringAdapter is(s); f->addMessage(is, s.size(), flags); }
static std::string body(const vmime::shared_ptr<nt::message>& m, size_t start = 0, size_t len = static_cast<size_t>(-1)) { std::string s; vmime::utility::outputStreamStringAdapter os(s); m->extract(os, NULL, start, len); return s; }
static std::vector<std::string> contents(const vmime::shared_ptr<nt::store>& st, const FP& p) {
	std::vector<std::string> v; auto f = st->getFolder(pathOf(p)); f->open(nt::folder::MODE_READ_ONLY);
	for (size_t i = 1; i <= f->getMessageCount(); ++i) v.push_back(body(f->getMessage(i)));
	f->close(false); std::sort(v.begin(), v.end()); return v;
}
// ---- folders
struct Folders {
	Run& r; bool courier; std::map<FP, std::vector<std::string>> m; vmime::shared_ptr<nt::store> st; std::string log;
	bool ok(bool c, const std::string& k, const std::string& w) { return r.check(c, k + (courier ? " (Courier)" : " (KMail)"), w); }
	std::vector<FP> want(const FP& root, bool all) { std::vector<FP> v; for (auto& e : m) if (below(root, e.first) && (all || e.first.size() == root.size() + 1)) v.push_back(e.first); return sorted(v); }
	void verify(const std::vector<FP>& gone) {
		std::vector<FP> roots{FP()}; for (auto& e : m) roots.push_back(e.first);
		for (auto& q : roots) {
			auto f = st->getFolder(pathOf(q));
			for (bool all : {false, true}) {
				auto got = pathsOf(f->getFolders(all)), w = want(q, all);
				ok(got == w, "folders listed", std::string("listing ") + (all ? "all folders" : "the folders directly") + " below " + show(q) + " gives " + show(got) + "; the folders there are " + show(w));
			}
			bool has = !want(q, false).empty();
			ok(((f->getAttributes().getFlags() & nt::folderAttributes::FLAG_HAS_CHILDREN) != 0) == has, "has sub-folders", "folder " + show(q) + " is said " + (has ? "not " : "") + "to have sub-folders");
			if (!q.empty()) {
				if (ok(f->exists(), "existing folder", "folder " + show(q) + " is said not to exist"))
					ok(contents(st, q) == m[q], "messages of a folder", "the messages of folder " + show(q) + " are not those that were put into it");
			}
		}
		for (auto& q : gone) if (!m.count(q)) ok(!st->getFolder(pathOf(q))->exists(), "folder that does not exist", "folder " + show(q) + " is said to exist");
	}
	void make(const FP& p) {
		auto f = st->getFolder(pathOf(p)); nt::folderAttributes a; f->create(a); auto& v = m[p]; int k = 1 + static_cast<int>(r.rnd(2));
		f->open(nt::folder::MODE_READ_WRITE); for (int i = 0; i < k; ++i) { std::string s = text(static_cast<int>(r.rnd(1000))); put(f, s); v.push_back(s); } f->close(false); std::sort(v.begin(), v.end());
	}
};
static const std::vector<std::string> NAMES{"a", "ab", "a b", "A", "-", "b", "\xc3\xa9", "\xe6\x97\xa5\xe6\x9c\xac", "a.b", "&", "~", "2,S", "a:b", "a.", "+", "a+-b", "c+d-&e", "cur", "new", "INBOX", "b.a", "directory", "x\xc3\xa9.y", "aa", "&AOk-", "b&-c"};
static void folders(Run& r, bool courier, const std::vector<FP>& first, size_t steps) {
	MemFS::get().reset(); MemFS::get().n["/store"] = MemFS::Node{true, ""};
	if (courier) { MemFS::get().n["/store/.zz"] = MemFS::Node{true, ""}; MemFS::get().n["/store/.zz/maildirfolder"] = MemFS::Node{false, ""}; }
	Folders t{r, courier, {}, openStore(), ""};
	if (courier) { MemFS::get().n.erase("/store/.zz/maildirfolder"); MemFS::get().n.erase("/store/.zz"); for (auto d : {"cur", "new", "tmp"}) MemFS::get().n[std::string("/store/") + d] = MemFS::Node{true, ""}; }
	auto random = [&](const FP& parent) { FP p = parent; p.push_back(NAMES[r.rnd(NAMES.size())]); return p; };
	auto any = [&](bool root) { std::vector<FP> v; if (root) v.push_back(FP()); for (auto& e : t.m) v.push_back(e.first); return v.empty() ? FP() : v[r.rnd(v.size())]; };
	std::vector<FP> gone; std::string log;
	auto step = [&](const std::string& what, const std::function<void()>& f) {
		log += what + "; "; r.begin(std::string(courier ? "Courier" : "KMail") + " store: " + log, true);
		try { f(); t.verify(gone); } catch (vmime::exception& e) { t.ok(false, "exception", std::string(e.name()) + ": " + e.what()); }
	};
	for (auto& p : first) step("create " + show(p), [&] { t.make(p); });
	for (size_t i = 0; i < steps && r.time(); ++i) {
		int k = static_cast<int>(r.rnd(10));
		if (k < 6 || t.m.empty()) {
			FP p = random(any(true)); if (p.size() > 4 || t.m.count(p)) continue;
			step("create " + show(p), [&] { t.make(p); });
		} else if (k < 8) {
			FP o = any(false), d = random(any(true)); if (t.m.count(d) || below(o, d) || o == d) continue;
			FP par(d.begin(), d.end() - 1); if (par == o || below(o, par)) continue;
			step("rename " + show(o) + " to " + show(d), [&] {
				// objects for folders that move, and for others
				std::vector<std::pair<FP, Fld>> objs; for (auto& e : t.m) objs.push_back({e.first, t.st->getFolder(pathOf(e.first))});
				t.st->getFolder(pathOf(o))->rename(pathOf(d));
				auto moved = [&](const FP& q) { if (q != o && !below(o, q)) return q; FP x = d; x.insert(x.end(), q.begin() + o.size(), q.end()); return x; };
				std::map<FP, std::vector<std::string>> m; for (auto& e : t.m) { m[moved(e.first)] = e.second; if (moved(e.first) != e.first) gone.push_back(e.first); }
				t.m = m;
				for (auto& b : objs) t.ok(names(b.second->getFullPath()) == moved(b.first), "path of a folder object after a rename", "the object for " + show(b.first) + " now names " + show(names(b.second->getFullPath())) + " instead of " + show(moved(b.first)));
			});
		} else {
			FP o = any(false);
			step("destroy " + show(o), [&] { t.st->getFolder(pathOf(o))->destroy(); for (auto i = t.m.begin(); i != t.m.end();) if (i->first == o || below(o, i->first)) { gone.push_back(i->first); i = t.m.erase(i); } else ++i; });
		}
	}
}
// ---- file names and flags of messages, as other programs see them
static int flagsIn(const std::string& name) {
	size_t k = name.rfind(":2,"); if (k == std::string::npos) k = name.rfind("-2,"); int f = k == std::string::npos ? nt::message::FLAG_RECENT : 0; if (k == std::string::npos) return f;
	for (size_t i = k + 3; i < name.size(); ++i) switch (name[i]) { case 'R': case 'r': f |= nt::message::FLAG_REPLIED; break; case 'S': case 's': f |= nt::message::FLAG_SEEN; break; case 'T': case 't': f |= nt::message::FLAG_DELETED; break; case 'F': case 'f': f |= nt::message::FLAG_MARKED; break; case 'P': case 'p': f |= nt::message::FLAG_PASSED; break; case 'D': case 'd': f |= nt::message::FLAG_DRAFT; break; }
	return f;
}
static const int ALL[6] = {nt::message::FLAG_REPLIED, nt::message::FLAG_SEEN, nt::message::FLAG_DELETED, nt::message::FLAG_MARKED, nt::message::FLAG_PASSED, nt::message::FLAG_DRAFT};
static const std::string IDS = "1123456789.42_7.mail-2.example.org";
static void namesCase(Run& r, const std::string& id, const std::vector<int>& ops) {
	MemFS::get().reset(); for (auto d : {"/store", "/store/in", "/store/in/new", "/store/in/cur", "/store/in/tmp"}) MemFS::get().n[d] = MemFS::Node{true, ""};
	bool fresh = ops[0] < 0; int f = fresh ? 0 : ops[0]; std::string name = id;
	if (!fresh) { name += ":2,"; const char L[7] = "RSTFPD"; for (int i = 5; i >= 0; --i) if (f & ALL[i]) name += L[i]; }
	MemFS::get().n[std::string(fresh ? "/store/in/new/" : "/store/in/cur/") + name] = MemFS::Node{false, text(7)};
	std::string d = "message file '" + hex(name) + "', flags set in turn:"; for (size_t i = 1; i < ops.size(); ++i) d += " " + std::to_string(ops[i]);
	r.begin(d);
	try {
		auto st = openStore(); auto fl = st->getFolder(pathOf({"in"})); fl->open(nt::folder::MODE_READ_WRITE);
		if (!r.check(fl->getMessageCount() == 1, "message of a file", "the folder is said to hold " + std::to_string(fl->getMessageCount()) + " messages")) return;
		auto m = fl->getMessage(1); nt::fetchAttributes at; at.add(nt::fetchAttributes::FLAGS); at.add(nt::fetchAttributes::UID);
		fl->fetchMessage(m, at); std::string uid = m->getUID();
		r.check(uid == id, "identifier of a message", "its identifier is said to be '" + hex(uid) + "'");
		r.check(m->getFlags() == f, "flags of a file name", "its flags are said to be " + std::to_string(m->getFlags()) + " instead of " + std::to_string(f));
		for (size_t i = 1; i < ops.size(); ++i) {
			m->setFlags(ops[i], nt::message::FLAG_MODE_SET); fl->fetchMessage(m, at);
			auto v = MemFS::get().in("/store/in/cur"); int w = ops[i];
			if (!r.check(v.size() == 1, "files after a change of flags", "there are " + std::to_string(v.size()) + " files")) return;
			r.check(m->getFlags() == w && (flagsIn(v[0]) & ~nt::message::FLAG_RECENT) == w, "flags set", "after setting flags " + std::to_string(w) + " the flags are " + std::to_string(m->getFlags()) + " and the file is '" + hex(v[0]) + "'");
			r.check(static_cast<std::string>(m->getUID()) == uid && v[0].compare(0, id.size(), id) == 0, "identifier after a change of flags", "the file is now '" + hex(v[0]) + "', identifier '" + hex(m->getUID()) + "'");
		}
	} catch (vmime::exception& e) { r.fail("exception on a message file", std::string(e.name()) + ": " + e.what()); }
}
// ---- messages
struct Msg { int id; int flags; };
struct Box {
	Run& r; std::vector<Msg> m; int next = 1; std::string log; Fld f; struct Obj { vmime::shared_ptr<nt::message> o; int id; std::string uid; }; std::vector<Obj> objs;
	std::map<int, std::string> uids; std::vector<std::string> copied;
	static int vis(int f) { return f & ~nt::message::FLAG_RECENT; }
	size_t unseen() { size_t k = 0; for (auto& x : m) if (!(x.flags & nt::message::FLAG_SEEN)) ++k; return k; }
	size_t at(int id) { for (size_t i = 0; i < m.size(); ++i) if (m[i].id == id) return i + 1; return 0; }
	static int idOf(const std::string& s) { return s.compare(0, 17, "Subject: message ") == 0 ? atoi(s.c_str() + 17) : -1; }
	void verify(bool order) {
		if (!r.check(f->getMessageCount() == m.size(), "number of messages", "the folder is said to hold " + std::to_string(f->getMessageCount()) + " messages instead of " + std::to_string(m.size()))) return;
		nt::fetchAttributes at_; at_.add(nt::fetchAttributes::FLAGS); at_.add(nt::fetchAttributes::UID); at_.add(nt::fetchAttributes::SIZE);
		std::vector<Msg> seen; std::set<std::string> us;
		for (size_t i = 1; i <= m.size(); ++i) {
			auto o = f->getMessage(i); f->fetchMessage(o, at_); std::string t = body(o); int id = idOf(t);
			r.check(id > 0 && t == text(id), "text of a message", "message " + std::to_string(i) + " reads '" + hex(t, 60) + "'");
			r.check(o->getSize() == t.size(), "size of a message", "message " + std::to_string(i) + " is said to have " + std::to_string(o->getSize()) + " bytes instead of " + std::to_string(t.size()));
			seen.push_back(Msg{id, o->getFlags()}); us.insert(o->getUID());
			if (uids.count(id)) r.check(uids[id] == static_cast<std::string>(o->getUID()), "identifier of a message", "the identifier of message " + std::to_string(i) + " has changed"); else uids[id] = o->getUID();
		}
		r.check(us.size() == m.size(), "identifiers of messages", "two messages have the same identifier");
		if (!order) { std::vector<Msg> n; for (auto& s : seen) if (at(s.id)) n.push_back(m[at(s.id) - 1]); if (n.size() == m.size()) m = n; }
		std::string got, want; for (auto& x : seen) got += std::to_string(x.id) + ":" + std::to_string(vis(x.flags)) + " "; for (auto& x : m) want += std::to_string(x.id) + ":" + std::to_string(vis(x.flags)) + " ";
		r.check(got == want, "messages and flags", "the messages (subject:flags) are " + got + "; they should be " + want);
		// what is on the disk
		std::map<int, int> disk; for (auto& n : MemFS::get().in("/store/in/cur")) { std::string t = MemFS::get().n["/store/in/cur/" + n].data; disk[idOf(t)] = vis(flagsIn(n)); }
		std::string dg, dw; for (auto& x : disk) dg += std::to_string(x.first) + ":" + std::to_string(x.second) + " "; std::map<int, int> w; for (auto& x : m) w[x.id] = vis(x.flags); for (auto& x : w) dw += std::to_string(x.first) + ":" + std::to_string(x.second) + " ";
		r.check(dg == dw && MemFS::get().in("/store/in/tmp").empty(), "files of the messages", "the files hold (subject:flags) " + dg + "; they should hold " + dw);
		for (auto& b : objs) {
			size_t k = at(b.id);
			if (!k) { r.check(b.o->isExpunged(), "object of an expunged message", "the object of message " + std::to_string(b.id) + ", which is gone, says it is not expunged"); continue; }
			r.check(!b.o->isExpunged() && b.o->getNumber() == k, "object of a message", "the object of the message with subject " + std::to_string(b.id) + " has number " + std::to_string(b.o->getNumber()) + (b.o->isExpunged() ? " (expunged)" : "") + " instead of " + std::to_string(k));
			if (!b.o->isExpunged()) { r.check(body(b.o) == text(b.id), "text of a message through its object", "the object of message " + std::to_string(b.id) + " gives another text"); r.check(vis(b.o->getFlags()) == vis(m[k - 1].flags), "flags of an object", "the object of message " + std::to_string(b.id) + " has flags " + std::to_string(b.o->getFlags()) + " instead of " + std::to_string(m[k - 1].flags)); }
		}
		auto s = f->getStatus();
		r.check(s->getMessageCount() == m.size() && s->getUnseenCount() == unseen(), "status", "the status says " + std::to_string(s->getMessageCount()) + " messages, " + std::to_string(s->getUnseenCount()) + " unseen instead of " + std::to_string(m.size()) + ", " + std::to_string(unseen()));
	}
};
static std::string setText(const nt::messageSet& s) { struct E : nt::messageSetEnumerator { std::string t; void enumerateNumberMessageRange(const nt::numberMessageRange& x) { t += " " + std::to_string(x.getFirst()) + ".." + std::to_string(x.getLast()); } void enumerateUIDMessageRange(const nt::UIDMessageRange&) {} } e; s.enumerate(e); return e.t; }
static void messages(Run& r, size_t steps) {
	MemFS::get().reset(); for (auto d : {"/store", "/store/in", "/store/in/new", "/store/in/cur", "/store/in/tmp"}) MemFS::get().n[d] = MemFS::Node{true, ""};
	Box b{r, {}, 1, "", {}, {}, {}, {}}; auto st = openStore(); b.f = st->getFolder(pathOf({"in"})); b.f->open(nt::folder::MODE_READ_WRITE);
	auto flags = [&] { int f = 0; for (int x : ALL) if (r.rnd(3) == 0) f |= x; return f; };
	auto step = [&](const std::string& what, const std::function<void()>& f, bool order = true) {
		b.log += what + "; "; r.begin("folder of messages: " + b.log, true);
		try { f(); b.verify(order); } catch (vmime::exception& e) { r.fail("exception", std::string(e.name()) + ": " + e.what()); }
	};
	for (size_t i = 0; i < steps && r.time(); ++i) {
		int k = static_cast<int>(r.rnd(19)); size_t n = b.m.size();
		if (k < 4) { int f = r.rnd(3) == 0 ? -1 : flags(); step("add with flags " + std::to_string(f), [&] { put(b.f, text(b.next), f); b.m.push_back(Msg{b.next++, f == -1 ? 0 : f}); }); }
		else if (k < 8 && n) {
			// ranges, in any order, "*" included
			nt::messageSet s = nt::messageSet::empty(); std::set<size_t> w; int c = 1 + static_cast<int>(r.rnd(3));
			for (int j = 0; j < c; ++j) { size_t a = 1 + r.rnd(n), z = r.rnd(2) ? a : a + r.rnd(n - a + 1); if (r.rnd(6) == 0) { s.addRange(nt::numberMessageRange(a, static_cast<size_t>(-1))); z = n; } else s.addRange(nt::numberMessageRange(a, z)); for (size_t q = a; q <= z; ++q) w.insert(q); }
			int mode = static_cast<int>(r.rnd(3)), f = flags(); static const int MODES[3] = {nt::message::FLAG_MODE_SET, nt::message::FLAG_MODE_ADD, nt::message::FLAG_MODE_REMOVE}; static const char* const MN[3] = {"set", "add", "remove"};
			bool del = r.rnd(4) == 0; if (del) { mode = 1; f = nt::message::FLAG_DELETED; }
			step((del ? std::string("delete messages") : std::string(MN[mode]) + " flags " + std::to_string(f) + " of messages") + setText(s), [&] {
				if (del) b.f->deleteMessages(s); else b.f->setMessageFlags(s, f, MODES[mode]);
				for (size_t q : w) { int& x = b.m[q - 1].flags; x = mode == 0 ? f : mode == 1 ? (x | f) : (x & ~f); }
			});
		}
		else if (k < 10) { step("expunge", [&] { b.f->expunge(); std::vector<Msg> v; for (auto& x : b.m) if (!(x.flags & nt::message::FLAG_DELETED)) v.push_back(x); b.m = v; }); }
		else if (k < 12 && n) { size_t q = 1 + r.rnd(n); step("take the object of message " + std::to_string(q), [&] { auto o = b.f->getMessage(q); nt::fetchAttributes a; a.add(nt::fetchAttributes::FLAGS); b.f->fetchMessage(o, a); b.objs.push_back(Box::Obj{o, b.m[q - 1].id, ""}); }); }
		else if (k < 13 && !b.objs.empty()) {
			size_t q = r.rnd(b.objs.size()); size_t at = b.at(b.objs[q].id); int f = flags(); if (!at) { b.objs.erase(b.objs.begin() + q); continue; }
			step("set flags " + std::to_string(f) + " through the object of message " + std::to_string(at), [&] { b.objs[q].o->setFlags(f); b.m[at - 1].flags = f; });
		}
		else if (k < 14) { step("a message is delivered by another program", [&] { MemFS::get().n["/store/in/new/1123.M" + (r.rnd(2) ? std::string(size_t(b.next), '0') : std::to_string(b.next) + (r.rnd(2) ? ".host" : ".mail-2.host"))] = MemFS::Node{false, text(b.next)}; b.f->getStatus(); b.m.push_back(Msg{b.next++, 0}); }); }
		else if (k < 15 && n) {
			size_t q = 1 + r.rnd(n), a = r.rnd(70), l = r.rnd(3) == 0 ? static_cast<size_t>(-1) : r.rnd(70); std::string t = text(b.m[q - 1].id);
			step("extract " + std::to_string(l) + " bytes from " + std::to_string(a) + " of message " + std::to_string(q), [&] { auto o = b.f->getMessage(q); if (r.rnd(2)) { nt::fetchAttributes at; at.add(nt::fetchAttributes::SIZE); b.f->fetchMessage(o, at); } std::string g = body(o, a, l), w = a >= t.size() ? "" : t.substr(a, l); r.check(g == w, "part of a message", "extracted '" + hex(g, 80) + "' instead of '" + hex(w, 80) + "'"); });
		}
		else if (k < 16 && n) {
			size_t q = r.rnd(n); int f = flags();
			step("another program gives message " + std::to_string(q + 1) + " the flags " + std::to_string(f), [&] {
				auto& fs = MemFS::get(); std::string old; for (auto& x : fs.in("/store/in/cur")) if (Box::idOf(fs.n["/store/in/cur/" + x].data) == b.m[q].id) old = x;
				if (old.empty()) { r.fail("file of a message", "there is no file for message " + std::to_string(q + 1)); return; }
				std::string name = old.substr(0, old.find(':')) + ":2,"; const char L[7] = "RSTFPD"; for (int i = 0; i < 6; ++i) if (f & ALL[i]) name += L[i];
				auto node = fs.n["/store/in/cur/" + old]; fs.n.erase("/store/in/cur/" + old); fs.n["/store/in/cur/" + name] = node; b.m[q].flags = f; b.f->getStatus();
				nt::fetchAttributes a; a.add(nt::fetchAttributes::FLAGS); for (auto& o : b.objs) if (!o.o->isExpunged()) b.f->fetchMessage(o.o, a);
			});
		}
		else if (k < 18 && n) {
			size_t p = 1 + r.rnd(n), q = p + r.rnd(n - p + 1);
			step("copy messages " + std::to_string(p) + ".." + std::to_string(q) + " to another folder", [&] {
				b.f->copyMessages(pathOf({"out"}), nt::messageSet::byNumber(p, q)); for (size_t x = p; x <= q; ++x) b.copied.push_back(std::to_string(b.m[x - 1].id) + ":" + std::to_string(Box::vis(b.m[x - 1].flags)));
				std::vector<std::string> got, want = b.copied; for (auto& x : MemFS::get().in("/store/out/cur")) { std::string t = MemFS::get().n["/store/out/cur/" + x].data; int id = Box::idOf(t); got.push_back(id > 0 && t == text(id) ? std::to_string(id) + ":" + std::to_string(Box::vis(flagsIn(x))) : "?"); }
				std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); std::string g, w; for (auto& x : got) g += x + " "; for (auto& x : want) w += x + " ";
				r.check(g == w && MemFS::get().in("/store/out/tmp").empty(), "messages copied", "the other folder holds (subject:flags) " + g + "instead of " + w);
			});
		}
		else { step("close and open again", [&] { b.objs.clear(); b.f->close(false); b.f = st->getFolder(pathOf({"in"})); b.f->open(nt::folder::MODE_READ_WRITE); }, false); }
	}
}
int main(int argc, char** argv) {
	vmime::platform::setHandler<MemHandler>();
	Run r(argc, argv);
	if (r.prop == "C22") {
		r.rule = "Maildir stores of both layouts over a file system in memory: after each step of a history of creations, renames and removals of folders with all kinds of names, what is listed below each folder, directly and at all depths, which folders exist, have sub-folders and hold which messages, and the paths of folder objects, against a model; message files named by other programs, with each flag set in turn";
		for (bool c : {true, false}) {
			folders(r, c, {{"a"}, {"ab"}, {"a", "b"}, {"ab", "b"}, {"a", "b", "c"}, {"A"}, {"a", "bb"}}, 12);
			folders(r, c, {{"a.b"}, {"a"}, {"a", "b"}, {"a.b", "c"}}, 10);
		}
		for (int i = 0; i < 64; ++i) { int f = 0; for (int b = 0; b < 6; ++b) if (i >> b & 1) f |= ALL[b]; namesCase(r, IDS, {f, 0, f, nt::message::FLAG_SEEN}); namesCase(r, "1.2.h", {-1, f, 0}); }
		for (const char* id : {"1", "a-2", "1.2.mail-2", "1.M2P3Q4R5_6.host,S=12", "x-y-z", "1.2.h=T", "1.2.-"}) namesCase(r, id, {-1, nt::message::FLAG_DELETED, 0, nt::message::FLAG_DRAFT | nt::message::FLAG_SEEN});
		while (r.time()) { folders(r, r.rnd(2) == 0, {}, 6 + r.rnd(14)); std::string id = "9" + r.bytes(r.rnd(12), "0123456789.-_=,abST2"); if (id.find("-2,") == std::string::npos) namesCase(r, id, {r.rnd(2) ? -1 : ALL[r.rnd(6)], ALL[r.rnd(6)], 0, ALL[r.rnd(6)] | ALL[r.rnd(6)]}); }
	} else {
		r.rule = "histories of additions, changes of flags of sets of messages, removals, expunges, copies to another folder, deliveries and changes of flags by other programs and new scans on a folder over a file system in memory: messages, flags, identifiers, sizes, texts, files, counts and the objects of messages, after each step, against a model";
		while (r.time()) messages(r, 4 + r.rnd(30));
	}
	return r.finish();
}
