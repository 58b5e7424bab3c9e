// assert() of the code under verification becomes a proof obligation
#undef assert
#ifdef __cplusplus
extern "C" void vc_code_assert(bool c, const char* txt);
#define assert(e) vc_code_assert((bool)(e), #e)
#else
void vc_code_assert(_Bool c, const char* txt);
#define assert(e) vc_code_assert((_Bool)!!(e), #e)
#endif
