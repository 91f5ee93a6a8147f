#pragma once
#include "common.hpp"
#include "vmime/vmime.hpp"
#include "vmime/platforms/posix/posixHandler.hpp"
namespace rp {
// file system in memory, seen through the interface the library uses: the path of a file is the text a POSIX system would be given
struct MemFS {
	struct Node { bool dir; std::string data; };
	std::map<std::string, Node> n;
	void reset() { n.clear(); n[""] = Node{true, ""}; }
	static MemFS& get() { static MemFS f; return f; }
	bool has(const std::string& p) const { return n.count(p) != 0; }
	bool isDir(const std::string& p) const { auto i = n.find(p); return i != n.end() && i->second.dir; }
	static std::string up(const std::string& p) { size_t k = p.rfind('/'); return k == std::string::npos ? "" : p.substr(0, k); }
	// names of what is directly inside a directory
	std::vector<std::string> in(const std::string& p) const {
		std::vector<std::string> v;
		for (auto& e : n) if (e.first.size() > p.size() + 1 && e.first.compare(0, p.size() + 1, p + "/") == 0 && e.first.find('/', p.size() + 1) == std::string::npos) v.push_back(e.first.substr(p.size() + 1));
		return v;
	}
	void move(const std::string& a, const std::string& b) {
		std::map<std::string, Node> m;
		for (auto i = n.begin(); i != n.end();) {
			if (i->first == a || i->first.compare(0, a.size() + 1, a + "/") == 0) { m[b + i->first.substr(a.size())] = i->second; i = n.erase(i); } else ++i;
		}
		for (auto& e : m) n[e.first] = e.second;
	}
};
inline std::string fsText(const vmime::utility::file::path& p) { std::string s; for (size_t i = 0; i < p.getSize(); ++i) s += "/" + p[i].getBuffer(); return s; }
class MemFile : public vmime::utility::file {
	path m_p; std::string m_k;
	[[noreturn]] void bad() const { throw vmime::exceptions::filesystem_exception("refused", m_p); }
	struct It : public vmime::utility::fileIterator {
		path p; std::vector<std::string> v; size_t i = 0;
		bool hasMoreElements() const { return i < v.size(); }
		vmime::shared_ptr<vmime::utility::file> nextElement() { return vmime::make_shared<MemFile>(p / path::component(v[i++], vmime::charsets::UTF_8)); }
	};
	struct Out : public vmime::utility::outputStream {
		std::string k;
		void writeImpl(const vmime::byte_t* const d, const size_t c) { MemFS::get().n[k].data.append(reinterpret_cast<const char*>(d), c); }
		void flush() {}
	};
	struct Wr : public vmime::utility::fileWriter { std::string k; vmime::shared_ptr<vmime::utility::outputStream> getOutputStream() { MemFS::get().n[k].data.clear(); auto o = vmime::make_shared<Out>(); o->k = k; return o; } };
	struct Rd : public vmime::utility::fileReader { std::string d; vmime::shared_ptr<vmime::utility::inputStream> getInputStream() { return vmime::make_shared<vmime::utility::inputStreamStringAdapter>(d); } };
public:
	explicit MemFile(const path& p) : m_p(p), m_k(fsText(p)) {}
	void createFile() { auto& f = MemFS::get(); if (f.has(m_k) || !f.isDir(MemFS::up(m_k))) bad(); f.n[m_k] = MemFS::Node{false, ""}; }
	void createDirectory(const bool all = false) {
		auto& f = MemFS::get();
		if (all) { if (f.isDir(m_k)) return; for (size_t i = 1; (i = m_k.find('/', i)) != std::string::npos; ++i) { std::string a = m_k.substr(0, i); if (!f.has(a)) f.n[a] = MemFS::Node{true, ""}; else if (!f.isDir(a)) bad(); } if (f.has(m_k)) bad(); f.n[m_k] = MemFS::Node{true, ""}; return; }
		if (f.isDir(m_k)) return;
		if (f.has(m_k) || !f.isDir(MemFS::up(m_k))) bad();
		f.n[m_k] = MemFS::Node{true, ""};
	}
	bool isFile() const { auto& f = MemFS::get(); return f.has(m_k) && !f.isDir(m_k); }
	bool isDirectory() const { return MemFS::get().isDir(m_k); }
	bool canRead() const { return exists(); }
	bool canWrite() const { return exists(); }
	length_type getLength() { if (!exists()) bad(); return MemFS::get().n[m_k].data.size(); }
	const path& getFullPath() const { return m_p; }
	bool exists() const { return MemFS::get().has(m_k); }
	vmime::shared_ptr<vmime::utility::file> getParent() const { if (m_p.isEmpty()) return vmime::null; return vmime::make_shared<MemFile>(m_p.getParent()); }
	void rename(const path& np) {
		auto& f = MemFS::get(); std::string b = fsText(np);
		if (!f.has(m_k) || !f.isDir(MemFS::up(b))) bad();
		if (b != m_k) {
			if (f.isDir(m_k) && b.compare(0, m_k.size() + 1, m_k + "/") == 0) bad();
			if (f.has(b) && (f.isDir(b) != f.isDir(m_k) || !f.in(b).empty())) bad();
			f.move(m_k, b);
		}
		m_p = np; m_k = b;
	}
	void remove() { auto& f = MemFS::get(); if (!f.has(m_k) || !f.in(m_k).empty()) bad(); f.n.erase(m_k); }
	vmime::shared_ptr<vmime::utility::fileWriter> getFileWriter() { auto w = vmime::make_shared<Wr>(); w->k = m_k; return w; }
	vmime::shared_ptr<vmime::utility::fileReader> getFileReader() { if (!isFile()) bad(); auto r = vmime::make_shared<Rd>(); r->d = MemFS::get().n[m_k].data; return r; }
	vmime::shared_ptr<vmime::utility::fileIterator> getFiles() const { if (!isDirectory()) { if (exists()) throw vmime::exceptions::not_a_directory(m_p); bad(); } auto i = vmime::make_shared<It>(); i->p = m_p; i->v = MemFS::get().in(m_k); return i; }
};
class MemFactory : public vmime::utility::fileSystemFactory {
public:
	vmime::shared_ptr<vmime::utility::file> create(const vmime::utility::file::path& p) const { return vmime::make_shared<MemFile>(p); }
	const vmime::utility::file::path stringToPath(const vmime::string& s) const { return vmime::utility::path::fromString(s, "/", vmime::charsets::UTF_8); }
	const vmime::string pathToString(const vmime::utility::file::path& p) const { return fsText(p); }
	bool isValidPathComponent(const vmime::utility::file::path::component& c) const { return c.getBuffer().find_first_of("/*") == std::string::npos; }
	bool isValidPath(const vmime::utility::file::path& p) const { for (size_t i = 0; i < p.getSize(); ++i) if (!isValidPathComponent(p[i])) return false; return true; }
	void reportError(const vmime::utility::path&, const int) {}
};
class MemHandler : public vmime::platforms::posix::posixHandler {
	vmime::shared_ptr<MemFactory> m_f = vmime::make_shared<MemFactory>();
public:
	vmime::shared_ptr<vmime::utility::fileSystemFactory> getFileSystemFactory() { return m_f; }
	const vmime::charset getLocalCharset() const { return vmime::charsets::UTF_8; }
};
}
