#undef OPX
#undef OP
#undef OP2
#undef WOP
#undef WOPM
#undef OPC
#define OPX(NAME, ...) entry<K_##NAME<V, W>>(),
#define OP(NAME, ...) entry<K_##NAME<V, W>>(),
#define OP2(NAME, ...) entry<K_##NAME<V, W>>(),
#define OPC(NAME, ...) entry<K_##NAME<V, W>>(),
#define WOP(NAME, ...) entry<K_##NAME<V, W>>(),
#define WOPM(NAME, ...) entry<K_##NAME<V, W>>(),
