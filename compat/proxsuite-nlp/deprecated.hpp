// Stand-in for the header that jrl-cmakemodules generates at configure time.
#pragma once
#define PROXSUITE_NLP_DEPRECATED
#define PROXSUITE_NLP_DEPRECATED_MESSAGE(msg)
#define PROXSUITE_NLP_DEPRECATED_HEADER(msg)
#ifndef PROXSUITE_NLP_PRAGMA
#define PROXSUITE_NLP_PRAGMA(...)
#endif
