#define PLY_PREFER_CPP11 0
#define PLY_WITH_EXCEPTIONS 0
#define PLY_REPLACE_OPERATOR_NEW 1
#define PLY_USE_DLMALLOC 1
#define PLY_DLMALLOC_DEBUG_CHECKS 0
#define PLY_DLMALLOC_FAST_STATS 0
#define PLY_IMPL_MUTEX_PATH "impl/Mutex_CPP11.h"
#define PLY_IMPL_MUTEX_TYPE ply::Mutex_CPP11
#define PLY_IMPL_CONDITIONVARIABLE_PATH "impl/ConditionVariable_CPP11.h"
#define PLY_IMPL_CONDITIONVARIABLE_TYPE ply::ConditionVariable_CPP11
#define PLY_WORKSPACE_FOLDER "/ws/"
#define PLY_BUILD_FOLDER "/ws/data/build/all/"
#define PLY_CMAKE_PATH "/usr/bin/cmake"
#define WITH_AUDIO 1
