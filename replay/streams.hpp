#pragma once
#include "common.hpp"
#include "vmime/utility/inputStream.hpp"
#include "vmime/utility/seekableInputStream.hpp"
#include "vmime/utility/outputStream.hpp"
namespace rp {
// input stream over a string that returns short reads according to a schedule
class ChunkInput : public vmime::utility::inputStream {
public:
	ChunkInput(const std::string& d, const std::vector<size_t>& sched) : m_d(d), m_s(sched) {}
	bool eof() const { return m_pos >= m_d.size() && (m_lazy ? m_hit : true); }
	void reset() { m_pos = 0; m_k = 0; m_hit = false; }
	size_t read(vmime::byte_t* const data, const size_t count) {
		size_t n = m_s.empty() ? count : std::max<size_t>(1, m_s[m_k++ % m_s.size()]);
		n = std::min(std::min(n, count), m_d.size() - m_pos);
		memcpy(data, m_d.data() + m_pos, n);
		m_pos += n;
		if (n == 0) m_hit = true;
		return n;
	}
	size_t skip(const size_t count) { size_t n = std::min(count, m_d.size() - m_pos); m_pos += n; return n; }
	bool m_lazy = false;   // eof() only known after an empty read
private:
	std::string m_d; std::vector<size_t> m_s; size_t m_pos = 0, m_k = 0; bool m_hit = false;
};
class StrOutput : public vmime::utility::outputStream {
public:
	std::string s; size_t flushes = 0;
	void flush() { flushes++; }
protected:
	void writeImpl(const vmime::byte_t* const data, const size_t count) { s.append(reinterpret_cast<const char*>(data), count); }
};
inline std::vector<size_t> sched(Run& r, int kind) {
	switch (kind) {
		case 0: return {};
		case 1: return {1};
		case 2: return {2};
		case 3: return {3};
		default: { std::vector<size_t> v; size_t n = 1 + r.rnd(6); for (size_t i = 0; i < n; ++i) v.push_back(1 + r.rnd(9)); return v; }
	}
}
inline std::string schedStr(const std::vector<size_t>& v) { std::string s = "["; for (size_t x : v) s += std::to_string(x) + ","; return s + "]"; }
}
