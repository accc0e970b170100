// Stand-in for the header that jrl-cmakemodules generates at configure time.
#pragma once
#define PROXSUITE_NLP_VERSION "0.0.0"
#define PROXSUITE_NLP_MAJOR_VERSION 0
#define PROXSUITE_NLP_MINOR_VERSION 0
#define PROXSUITE_NLP_PATCH_VERSION 0
#define PROXSUITE_NLP_DLLAPI
#define PROXSUITE_NLP_DLLIMPORT
#define PROXSUITE_NLP_DLLEXPORT
#define PROXSUITE_NLP_LOCAL
#define PROXSUITE_NLP_EXPLICIT_INSTANTIATION_DECLARATION_DLLAPI
#define PROXSUITE_NLP_EXPLICIT_INSTANTIATION_DEFINITION_DLLAPI
