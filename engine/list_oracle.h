#undef OPX
#undef OP
#undef OP2
#undef WOP
#undef WOPM
#undef OPC
#define OPX(NAME, ...) oentry<O_##NAME<T, U>>(),
#define OP(NAME, ...) oentry<O_##NAME<T, U>>(),
#define OP2(NAME, ...) oentry<O_##NAME<T, U>>(),
#define OPC(NAME, ...) oentry<O_##NAME<T, U>>(),
#define WOP(NAME, ...) oentry<O_##NAME<T, U>>(),
#define WOPM(NAME, ...) oentry<O_##NAME<T, U>>(),
