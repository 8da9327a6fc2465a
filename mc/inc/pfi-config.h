// stand-in for the header that waf generates at configure time
#ifndef W_SRC_PFI_CONFIG_H_WAF
#define W_SRC_PFI_CONFIG_H_WAF
#define HAVE_STDINT_H 1
#define PFICOMMON_VERSION "4.0.0"
#endif
