// C interface to the parts of the code under test that have none. Compiled with it, from the headers of the working tree.
#include "SgOctreePoints.h"
#include "SgSideIterator.h"
extern "C" {
int simSideIterator_new(void** self, int ndims) { *self = new SgSideIterator_type((size_t) ndims); return 0; }
int simSideIterator_del(void** self) { delete (SgSideIterator_type*) *self; return 0; }
int simSideIterator_reset(void** self) { ((SgSideIterator_type*) *self)->reset(); return 0; }
int simSideIterator_next(void** self) { return ((SgSideIterator_type*) *self)->next(); }
int simSideIterator_num(void** self, int* n) { *n = (int) ((SgSideIterator_type*) *self)->getNumberOfElements(); return 0; }
int simSideIterator_get(void** self, int side[], int room) { std::vector<int> s = ((SgSideIterator_type*) *self)->get(); for (size_t i = 0; i < s.size() && (int) i < room; ++i) side[i] = s[i]; return (int) s.size(); }
int simOctree_key(void** self, const double* point, int level, int key[], int room) { std::vector<size_t> k = ((SgOctreePoints_type*) *self)->getKey(point, (size_t) level); for (size_t i = 0; i < k.size() && (int) i < room; ++i) key[i] = (int) k[i]; return (int) k.size(); }
int simOctree_box(void** self, const int key[], int level, double lo[], double hi[], int room) {
    std::vector<size_t> k(key, key + level); const std::vector<double>& a = ((SgOctreePoints_type*) *self)->getLo(k); const std::vector<double>& b = ((SgOctreePoints_type*) *self)->getHi(k);
    for (size_t i = 0; i < a.size() && i < b.size() && (int) i < room; ++i) { lo[i] = a[i]; hi[i] = b[i]; } return (int) (a.size() < b.size() ? a.size() : b.size());
}
}
#include "CmdLineArgParser.h"
extern "C" {
int simParser_new(void** self) { *self = new CmdLineArgParser(); return 0; }
int simParser_del(void** self) { delete (CmdLineArgParser*) *self; return 0; }
int simParser_set(void** self, int type, const char* name, double d, int i, const char* s, const char* help) {
    CmdLineArgParser* p = (CmdLineArgParser*) *self;
    if (type == 0) p->set(name, d, help); else if (type == 1) p->set(name, i, help); else if (type == 2) p->set(name, std::string(s), help); else if (type == 3) p->set(name, s, help); else p->set(name, i != 0, help);
    return 0;
}
int simParser_parse(void** self, int argc, const char** argv) { return ((CmdLineArgParser*) *self)->parse(argc, (char**) argv) ? 1 : 0; }
int simParser_text(void** self, int which, const char* s) { CmdLineArgParser* p = (CmdLineArgParser*) *self; if (which == 0) p->help(); else if (which == 1) p->setPurpose(s); else p->addFootnote(s); return 0; }
int simParser_number(void** self, int type, const char* name, double* r) {
    const CmdLineArgParser* p = (const CmdLineArgParser*) *self;
    *r = type == 0 ? p->get<double>(name) : type == 1 ? (double) p->get<int>(name) : (double) p->get<bool>(name); return 0;
}
int simParser_string(void** self, int type, const char* name, char* buf, int room) {
    const CmdLineArgParser* p = (const CmdLineArgParser*) *self; std::string s = type == 2 ? p->get<std::string>(name) : std::string(p->get<const char*>(name));
    for (size_t i = 0; i < s.size() && (int) i < room; ++i) buf[i] = s[i]; return (int) s.size();
}
int simParser_list(void** self, int type, const char* name, double* v, int room) {
    const CmdLineArgParser* p = (const CmdLineArgParser*) *self;
    if (type == 0) { std::vector<double> l = p->get<std::vector<double> >(name); for (size_t i = 0; i < l.size() && (int) i < room; ++i) v[i] = l[i]; return (int) l.size(); }
    std::vector<int> l = p->get<std::vector<int> >(name); for (size_t i = 0; i < l.size() && (int) i < room; ++i) v[i] = l[i]; return (int) l.size();
}
}
