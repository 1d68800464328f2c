#define XrdVERSION "shim"
#define XrdVSTRING "shim"
