#pragma once
// records, RRsets, sections and messages as objects (specs2.cpp)
struct Sec { AV p; Lin nr, ns; AV rr, rs; bool ok = false; };
long fo(CT &c, const char *T, const char *f);
AV plus(AV p, long o);
AV ld(CT &c, const AV &p, int sz, bool ptr);
void stv(CT &c, const AV &p, int sz, const AV &v);
bool okp(CT &c, const AV &p);
bool objReq(CT &c, const AV &p, int kind, bool own, const std::string &msg, std::set<int> &owned);
void objIn(CT &c, int i, int kind, bool own, bool ro);
Sec secLoad(CT &c, const AV &p, bool own, const std::string &what);
void secIn(CT &c, int i, bool own, bool ro);
void msgArg(CT &c, int i, bool own, bool ro);
long secOff(CT &c, int k);
bool msgReq(CT &c, const AV &p, bool own, std::set<int> &owned, std::vector<Sec> *ss = nullptr);
