// intentionally small: see stubs/ for stand-ins of headers that are not installed
#ifndef VERIF_STUBS_HPP_
#define VERIF_STUBS_HPP_
#endif
