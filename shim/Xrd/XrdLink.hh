// Stand-in for xrootd's link class: QuarkDB's Link only needs these four calls.
#ifndef SHIM_XRDLINK_HH
#define SHIM_XRDLINK_HH
class XrdLink {
public:
  virtual ~XrdLink() {}
  virtual int Recv(char *buff, int blen, int timeout) = 0;
  virtual int Send(const char *buff, int blen) = 0;
  virtual int Close(int defer) = 0;
  virtual const char* Host() const = 0;
};
#endif
