// Stand-in for the file genversion.py generates.
#ifndef __QUARKDB_VERSION_H__
#define __QUARKDB_VERSION_H__
#define VERSION_MAJOR 0
#define VERSION_MINOR 4
#define VERSION_PATCH 3
#define VERSION_MINIPATCH 0
#define VERSION_FULL 0.4.3
#define VERSION_FULL_STRING "0.4.3"
#endif
