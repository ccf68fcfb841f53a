// inline functions of the repository that only compile as C
#include "iso7816_apdu.h"
int vh_apdu_case(const void* p, size_t n) { return iso7816_apdu_case(p, n); }
bool vh_sw_success(uint8_t a, uint8_t b) { return iso7816_sw1sw2_is_success(a, b); }
bool vh_sw_normal(uint8_t a, uint8_t b) { return iso7816_sw1sw2_is_normal(a, b); }
bool vh_sw_warning(uint8_t a, uint8_t b) { return iso7816_sw1sw2_is_warning(a, b); }
bool vh_sw_error(uint8_t a, uint8_t b) { return iso7816_sw1sw2_is_error(a, b); }
enum { K1 = ISO7816_APDU_CASE_1 };
const int vh_case_values[7] = { ISO7816_APDU_CASE_1, ISO7816_APDU_CASE_2S, ISO7816_APDU_CASE_2E, ISO7816_APDU_CASE_3S, ISO7816_APDU_CASE_3E, ISO7816_APDU_CASE_4S, ISO7816_APDU_CASE_4E };
