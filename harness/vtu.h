// Reader of the solution files (.vtu): the named data arrays as doubles.
#pragma once
#include <zlib.h>
#include <fstream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <cstdint>
#include <cstring>

namespace vtu {
typedef std::map<std::string, std::vector<double> > Fields; // "points" has three components per entry

inline std::vector<unsigned char> base64(const std::string& s) {
	std::vector<unsigned char> o;
	int val = 0, bits = 0;
	for (unsigned char c : s) {
		int v;
		if (c >= 'A' && c <= 'Z') v = c - 'A';
		else if (c >= 'a' && c <= 'z') v = c - 'a' + 26;
		else if (c >= '0' && c <= '9') v = c - '0' + 52;
		else if (c == '+') v = 62;
		else if (c == '/') v = 63;
		else continue;
		val = (val << 6) | v;
		bits += 6;
		if (bits >= 8) { bits -= 8; o.push_back((val >> bits) & 255); }
		val &= (1 << bits) - 1;
	}
	return o;
}
inline uint32_t u32(const std::vector<unsigned char>& b, size_t i) { uint32_t v; memcpy(&v, &b.at(4 * i + 3) - 3, 4); return v; }

// header: number of blocks, block size, size of the last block, compressed sizes
inline std::vector<unsigned char> unpack(std::string text) {
	std::string t;
	for (char c : text) if (!isspace((unsigned char) c)) t += c;
	std::vector<unsigned char> head = base64(t.substr(0, 16)); // at least the three numbers
	uint32_t blocks = u32(head, 0);
	size_t header_chars = (4 * (3 + blocks) + 2) / 3 * 4;
	head = base64(t.substr(0, header_chars));
	std::vector<unsigned char> data = base64(t.substr(header_chars)), out;
	size_t pos = 0;
	for (uint32_t b = 0; b < blocks; b++) {
		uint32_t c = u32(head, 3 + b);
		uLongf n = b + 1 == blocks && u32(head, 2) ? u32(head, 2) : u32(head, 1);
		std::vector<unsigned char> o(n);
		if (pos + c > data.size() || uncompress(o.data(), &n, data.data() + pos, c) != Z_OK)
			throw std::runtime_error("solution file: corrupt block");
		o.resize(n);
		out.insert(out.end(), o.begin(), o.end());
		pos += c;
	}
	return out;
}
inline std::string attr(const std::string& tag, const std::string& name) {
	size_t i = tag.find(name + "=\"");
	if (i == std::string::npos) return "";
	i += name.size() + 2;
	return tag.substr(i, tag.find('"', i) - i);
}
inline Fields read(const std::string& file) {
	std::ifstream in(file);
	if (!in) throw std::runtime_error("no solution file " + file);
	std::stringstream ss;
	ss << in.rdbuf();
	std::string x = ss.str();
	Fields f;
	size_t points = x.find("<Points>"), points_end = x.find("</Points>");
	for (size_t i = x.find("<DataArray"); i != std::string::npos; i = x.find("<DataArray", i + 1)) {
		size_t e = x.find('>', i);
		std::string tag = x.substr(i, e - i), name = attr(tag, "Name"), type = attr(tag, "type");
		if (i > points && i < points_end) name = "points";
		size_t end = x.find("</DataArray>", e);
		std::string body = x.substr(e + 1, end - e - 1);
		std::vector<double> v;
		if (attr(tag, "format") == "ascii") {
			std::istringstream s(body);
			double d;
			while (s >> d) v.push_back(d);
		} else {
			std::vector<unsigned char> raw = unpack(body);
			if (type == "Float32") for (size_t k = 0; k + 4 <= raw.size(); k += 4) { float q; memcpy(&q, &raw[k], 4); v.push_back(q); }
			else if (type == "Float64") for (size_t k = 0; k + 8 <= raw.size(); k += 8) { double q; memcpy(&q, &raw[k], 8); v.push_back(q); }
			else continue;
		}
		f[name] = v;
	}
	return f;
}
} // namespace vtu
