// Stand-in for the header CMake generates from fairmq/Version.h.in.
#ifndef FAIR_MQ_VERSION_H
#define FAIR_MQ_VERSION_H
#define FAIRMQ_VERSION "1.9.0"
#define FAIRMQ_VERSION_DEC (1 * 100000) + (9 * 1000) + (0 * 10)
#define FAIRMQ_VERSION_MAJOR 1
#define FAIRMQ_VERSION_MINOR 9
#define FAIRMQ_VERSION_PATCH 0
#define FAIRMQ_GIT_VERSION "1.9.0-vp"
#define FAIRMQ_GIT_DATE "today"
#define FAIRMQ_REPO_URL "https://github.com/FairRootGroup/FairMQ"
#define FAIRMQ_LICENSE "LGPL-3.0"
#define FAIRMQ_COPYRIGHT "GSI"
#define FAIRMQ_BUILD_TYPE "vp"
#endif
