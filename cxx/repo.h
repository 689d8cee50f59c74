#pragma once
// paths of the real sources
#ifndef QV_REPO
#define QV_REPO /repo
#endif
#define QV_STR_(x) #x
#define QV_STR(x) QV_STR_(x)
#define QV_SRC(f) QV_STR(QV_REPO/cpp/qugar/f)
#define QV_WRAP(f) QV_STR(QV_REPO/python/nanobind_wrappers/f)
