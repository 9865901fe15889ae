// Reading of VTK XML files: independent of the writer.
#pragma once
#include "ref/bridge.hh"
#include <zlib.h>
#include <cmath>
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>
namespace vtk
{
using vp::strf;
struct Err { std::string s; };
[[noreturn]] inline void err (const std::string &s) { throw Err {s}; }
struct Node
{
  std::string name, text;
  std::map<std::string, std::string> at;
  std::vector<std::unique_ptr<Node>> kid;
  const std::string &attr (const std::string &k) const { auto i = at.find (k); if (i == at.end ()) err ("<" + name + "> has no attribute " + k); return i->second; }
  bool has (const std::string &k) const { return at.count (k) > 0; }
  const Node *one (const std::string &n) const
  {
    const Node *r = nullptr;
    for (auto &k : kid) if (k->name == n) { if (r) err ("more than one <" + n + "> in <" + name + ">"); r = k.get (); }
    return r;
  }
  const Node &need (const std::string &n) const { auto r = one (n); if (!r) err ("no <" + n + "> in <" + name + ">"); return *r; }
};
inline std::string slurp (const std::string &fn)
{
  FILE *f = fopen (fn.c_str (), "rb");
  if (!f) err ("no file " + fn);
  std::string s;
  char b[65536];
  size_t n;
  while ((n = fread (b, 1, sizeof b, f)) > 0) s.append (b, n);
  fclose (f);
  return s;
}
inline std::unique_ptr<Node> parse (const std::string &s)
{
  auto root = std::make_unique<Node> ();
  std::vector<Node *> st {root.get ()};
  size_t i = 0;
  auto name_ok = [](char c) { return isalnum ((unsigned char) c) || c == '_' || c == '-' || c == ':' || c == '.'; };
  bool decl = false;
  while (i < s.size ()) {
    if (s[i] != '<') {
      size_t j = s.find ('<', i);
      if (j == std::string::npos) j = s.size ();
      std::string t = s.substr (i, j - i);
      if (st.size () == 1 && t.find_first_not_of (" \t\r\n") != std::string::npos) err ("text outside of the document");
      st.back ()->text += t;
      i = j;
      continue;
    }
    size_t j = s.find ('>', i);
    if (j == std::string::npos) err ("unclosed tag");
    if (s[i + 1] == '?') {
      if (i != 0 || s[j - 1] != '?') err ("misplaced declaration");
      decl = true;
      i = j + 1;
      continue;
    }
    if (s[i + 1] == '/') {
      std::string n = s.substr (i + 2, j - i - 2);
      if (st.size () < 2 || st.back ()->name != n) err ("tag </" + n + "> closes " + (st.size () < 2 ? "nothing" : st.back ()->name));
      st.pop_back ();
      i = j + 1;
      continue;
    }
    auto k = std::make_unique<Node> ();
    size_t p = i + 1;
    while (p < j && name_ok (s[p])) k->name += s[p++];
    if (k->name.empty ()) err ("tag without a name");
    bool closed = false;
    for (;;) {
      size_t q = p;
      while (p < j && isspace ((unsigned char) s[p])) ++p;
      if (p == j) break;
      if (s[p] == '/') { if (p + 1 != j) err ("malformed tag"); closed = true; break; }
      if (p == q) err ("malformed attribute in <" + k->name + ">");
      std::string a, v;
      while (p < j && name_ok (s[p])) a += s[p++];
      if (a.empty () || s[p] != '=' || s[p + 1] != '"') err ("malformed attribute in <" + k->name + ">");
      p += 2;
      while (p < j && s[p] != '"') v += s[p++];
      if (p >= j) err ("unterminated attribute value in <" + k->name + ">");
      ++p;
      if (!k->at.insert ({a, v}).second) err ("attribute " + a + " twice in <" + k->name + ">");
    }
    Node *raw = k.get ();
    if (st.size () == 1 && !st[0]->kid.empty ()) err ("more than one root element");
    st.back ()->kid.push_back (std::move (k));
    if (!closed) st.push_back (raw);
    i = j + 1;
  }
  if (st.size () != 1) err ("tag <" + st.back ()->name + "> is not closed");
  if (!decl) err ("no XML declaration");
  if (root->kid.size () != 1) err ("no root element");
  return std::move (root->kid[0]);
}
inline int b64v (char c)
{
  if (c >= 'A' && c <= 'Z') return c - 'A';
  if (c >= 'a' && c <= 'z') return c - 'a' + 26;
  if (c >= '0' && c <= '9') return c - '0' + 52;
  return c == '+' ? 62 : c == '/' ? 63 : -1;
}
// decode one padded section that holds n bytes
inline std::string b64 (const std::string &s, size_t &pos, size_t n)
{
  std::string o;
  while (o.size () < n) {
    if (pos + 4 > s.size ()) err ("encoded data too short");
    int v[4], pad = 0;
    for (int k = 0; k < 4; ++k) {
      char c = s[pos + k];
      if (c == '=') { if (k < 2) err ("bad padding"); v[k] = 0; ++pad; }
      else { v[k] = b64v (c); if (v[k] < 0 || pad) err ("bad encoded character"); }
    }
    pos += 4;
    int w = v[0] << 18 | v[1] << 12 | v[2] << 6 | v[3];
    for (int k = 0; k < 3 - pad; ++k) o += (char) (w >> (16 - 8 * k) & 255);
    if (pad && o.size () < n) err ("encoded data ends early");
  }
  if (o.size () != n) err (strf ("encoded section of %zu bytes, expected %zu", o.size (), n));
  return o;
}
inline uint32_t u32 (const std::string &s, size_t i) { uint32_t v; memcpy (&v, &s[4 * i], 4); return v; }
struct Array { std::string type; int comps = 1; std::vector<double> v; };
inline size_t type_size (const std::string &t)
{
  if (t == "Float32" || t == "Int32" || t == "UInt32") return 4;
  if (t == "Float64" || t == "Int64") return 8;
  if (t == "UInt8" || t == "Int8") return 1;
  err ("unknown type " + t);
}
inline Array array_of (const Node &n, size_t tuples, bool compressed)
{
  Array a;
  a.type = n.attr ("type");
  if (n.has ("NumberOfComponents")) a.comps = atoi (n.attr ("NumberOfComponents").c_str ());
  size_t cnt = tuples * (size_t) a.comps, ts = type_size (a.type), bytes = cnt * ts;
  std::string f = n.attr ("format"), nm = n.has ("Name") ? n.attr ("Name") : n.name;
  if (f == "ascii") {
    const char *p = n.text.c_str ();
    char *e;
    for (;;) { double d = strtod (p, &e); if (e == p) break; a.v.push_back (d); p = e; }
    while (isspace ((unsigned char) *p)) ++p;
    if (*p) err ("bad number in " + nm);
  }
  else if (f == "binary") {
    std::string s, raw;
    for (char c : n.text) if (!isspace ((unsigned char) c)) s += c;
    size_t pos = 0;
    if (!compressed) {
      size_t q = 0;
      if (s.size () < 8) err ("no data in " + nm);
      std::string h = s.substr (0, 8);
      // header and data are one section or two
      std::string all;
      bool two = h.find ('=') != std::string::npos;
      if (two) { std::string hd = b64 (s, pos, 4); if (u32 (hd, 0) != bytes) err (strf ("%s has %u bytes, expected %zu", nm.c_str (), u32 (hd, 0), bytes)); raw = b64 (s, pos, bytes); }
      else { all = b64 (s, q, 4 + bytes); if (u32 (all, 0) != bytes) err (strf ("%s has %u bytes, expected %zu", nm.c_str (), u32 (all, 0), bytes)); raw = all.substr (4); pos = q; }
    }
    else {
      // the number of blocks is in the first bytes
      size_t q = 0;
      if (s.size () < 8) err ("no data in " + nm);
      std::string first;
      { std::string t = s.substr (0, 4); int w = b64v (t[0]) << 18 | b64v (t[1]) << 12 | b64v (t[2]) << 6 | b64v (t[3]); for (int k = 0; k < 3; ++k) first += (char) (w >> (16 - 8 * k) & 255); }
      uint32_t nb = (uint8_t) first[0] | (uint32_t) (uint8_t) first[1] << 8 | (uint32_t) (uint8_t) first[2] << 16;
      if (nb > 1000000) err ("too many blocks in " + nm);
      std::string h = b64 (s, q, 4 * (3 + (size_t) nb));
      if (u32 (h, 0) != nb) err ("bad number of blocks in " + nm);
      size_t bs = u32 (h, 1), last = u32 (h, 2), tot = 0;
      for (uint32_t k = 0; k < nb; ++k) tot += u32 (h, 3 + k);
      std::string z = tot ? b64 (s, q, tot) : std::string ();
      size_t o = 0;
      for (uint32_t k = 0; k < nb; ++k) {
        size_t want = k + 1 < nb || last == 0 ? bs : last;
        std::string out (want, '\0');
        uLongf got = (uLongf) want;
        if (uncompress ((Bytef *) &out[0], &got, (const Bytef *) z.data () + o, u32 (h, 3 + k)) != Z_OK || got != want) err (strf ("block %u of %s does not expand to %zu bytes", k, nm.c_str (), want));
        raw += out;
        o += u32 (h, 3 + k);
      }
      pos = q;
      if (raw.size () != bytes) err (strf ("%s has %zu bytes, expected %zu", nm.c_str (), raw.size (), bytes));
    }
    if (pos != s.size ()) err ("trailing data in " + nm);
    for (size_t i = 0; i < cnt; ++i) {
      const char *p = raw.data () + i * ts;
      double d = 0;
      if (a.type == "Float32") { float x; memcpy (&x, p, 4); d = x; }
      else if (a.type == "Float64") memcpy (&d, p, 8);
      else if (a.type == "Int32") { int32_t x; memcpy (&x, p, 4); d = x; }
      else if (a.type == "UInt32") { uint32_t x; memcpy (&x, p, 4); d = x; }
      else if (a.type == "Int64") { int64_t x; memcpy (&x, p, 8); d = (double) x; }
      else if (a.type == "UInt8") d = (uint8_t) *p;
      else d = (int8_t) *p;
      a.v.push_back (d);
    }
  }
  else err ("unknown format " + f);
  if (a.v.size () != cnt) err (strf ("%s has %zu values, expected %zu", nm.c_str (), a.v.size (), cnt));
  return a;
}
struct Piece
{
  size_t np = 0, nc = 0;
  Array points, conn, offs, types;
  std::vector<std::pair<std::string, Array>> cell, point;
};
inline const Node &doc (const Node &r, const char *type, bool &comp)
{
  if (r.name != "VTKFile" || r.attr ("type") != type || r.attr ("byte_order") != "LittleEndian") err (std::string ("not a VTKFile of type ") + type);
  comp = r.has ("compressor");
  if (comp && r.attr ("compressor") != "vtkZLibDataCompressor") err ("unknown compressor");
  if (r.kid.size () != 1) err ("VTKFile does not have one element");
  return r.need (type);
}
inline Piece read_piece (const std::string &fn)
{
  auto r = parse (slurp (fn));
  bool comp;
  const Node &g = doc (*r, "UnstructuredGrid", comp);
  if (g.kid.size () != 1) err ("not one piece in " + fn);
  const Node &n = g.need ("Piece");
  Piece p;
  p.np = (size_t) atoll (n.attr ("NumberOfPoints").c_str ());
  p.nc = (size_t) atoll (n.attr ("NumberOfCells").c_str ());
  const Node &pt = n.need ("Points");
  if (pt.kid.size () != 1) err ("not one array of points");
  p.points = array_of (pt.need ("DataArray"), p.np, comp);
  if (p.points.comps != 3) err ("points do not have three components");
  const Node &ce = n.need ("Cells");
  const Node *co = nullptr;
  for (auto &k : ce.kid) {
    if (k->name != "DataArray") err ("unexpected element in Cells");
    if (k->attr ("Name") == "connectivity") co = k.get ();
    else if (k->attr ("Name") == "offsets") p.offs = array_of (*k, p.nc, comp);
    else if (k->attr ("Name") == "types") p.types = array_of (*k, p.nc, comp);
    else err ("unexpected array in Cells");
  }
  if (!co || ce.kid.size () != 3) err ("arrays missing in Cells");
  p.conn = array_of (*co, p.nc ? (size_t) p.offs.v.back () : 0, comp);
  if (p.offs.v.size () != p.nc || p.types.v.size () != p.nc) err ("arrays missing in Cells");
  for (int w = 0; w < 2; ++w) if (auto d = n.one (w ? "PointData" : "CellData")) for (auto &k : d->kid) {
    if (k->name != "DataArray") err ("unexpected element in data");
    (w ? p.point : p.cell).push_back ({k->attr ("Name"), array_of (*k, w ? p.np : p.nc, comp)});
  }
  for (auto &k : n.kid) if (k->name != "Points" && k->name != "Cells" && k->name != "CellData" && k->name != "PointData") err ("unexpected element <" + k->name + ">");
  return p;
}
struct Meta { std::vector<std::pair<std::string, Array>> points, cell, point; std::vector<std::string> pieces; };
inline Meta read_meta (const std::string &fn)
{
  auto r = parse (slurp (fn));
  bool comp;
  const Node &g = doc (*r, "PUnstructuredGrid", comp);
  Meta m;
  for (auto &k : g.kid) {
    if (k->name == "Piece") { m.pieces.push_back (k->attr ("Source")); continue; }
    auto *v = k->name == "PPoints" ? &m.points : k->name == "PCellData" ? &m.cell : k->name == "PPointData" ? &m.point : nullptr;
    if (!v) err ("unexpected element <" + k->name + ">");
    for (auto &a : k->kid) {
      if (a->name != "PDataArray") err ("unexpected element in " + k->name);
      Array x;
      x.type = a->attr ("type");
      type_size (x.type);
      if (a->has ("NumberOfComponents")) x.comps = atoi (a->attr ("NumberOfComponents").c_str ());
      v->push_back ({a->attr ("Name"), x});
    }
  }
  return m;
}
}
