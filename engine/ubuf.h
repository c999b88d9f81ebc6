#pragma once
// growing buffers, as described by libmy/vector.h
struct UB { bool ok = false; int reg = -1, D = -1; AV u; Lin n, na, hint; };
UB ubIn(CT &c, int i, const char *T, long es);
void ubSet(CT &c, UB &b, const char *T, long es, const Lin &n, const Lin &cap, int appended0 = 0);
