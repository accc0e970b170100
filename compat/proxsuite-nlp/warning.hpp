#pragma once
#ifndef PROXSUITE_NLP_PRAGMA
#define PROXSUITE_NLP_PRAGMA(...)
#endif
// prints a warning in the generated header
#ifndef PROXSUITE_NLP_WARN
#define PROXSUITE_NLP_WARN(msg) ((void)0)
#endif
