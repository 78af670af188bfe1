#define BZ__config_stub
