// C42: calls with missing arguments
#include "vh.h"
#include "model.h"
extern "C" {
#include "iso8825_ber.h"
#include "iso7816.h"
#include "iso7816_compact_tlv.h"
#include "iso7816_strings.h"
#include "iso8859.h"
#include "emv.h"
#include "emv_app.h"
#include "emv_dol.h"
#include "emv_fields.h"
#include "emv_strings.h"
#include "emv_tal.h"
#include "emv_tlv.h"
#include "emv_ttl.h"
}
#include <functional>
using namespace vh;

namespace {
// everything a call may be given; all of it is valid, so that only the missing argument can be the reason for a refusal
struct Env {
	Src& s; unsigned mask = 0; unsigned exchanges = 0;
	Bytes data, text; Exact d, str, out; size_t n = 0, sn = 0, on = 0; uint32_t value = 0; unsigned tag = 0; uint16_t sw = 0;
	struct emv_tlv_list_t list = {nullptr, nullptr}, other = {nullptr, nullptr}; struct emv_app_list_t apps = EMV_APP_LIST_INIT; struct emv_app_t* app = nullptr; struct emv_ttl_t ttl; struct emv_ctx_t ctx;
	struct iso8825_tlv_t tlv; struct iso8825_ber_itr_t bitr; struct iso8825_oid_t oid; struct iso7816_compact_tlv_t ctlv; struct iso7816_compact_tlv_itr_t citr; struct iso7816_atr_info_t atr;
	struct emv_dol_entry_t dole; struct emv_dol_itr_t ditr; struct emv_aid_info_t aid; struct emv_afl_itr_t aitr; struct emv_afl_entry_t afle; struct emv_cvmlist_amounts_t amounts; struct emv_cvmlist_itr_t vitr; struct emv_cv_rule_t rule; struct emv_tlv_t field; struct emv_tlv_info_t info;
	const struct emv_tlv_t *aip = nullptr, *afl = nullptr; const struct emv_tlv_list_t* src[1];
	static int trx(void* c, const void*, size_t, void* rx, size_t* rl) { ++((Env*)c)->exchanges; if (*rl < 2) return -1; ((uint8_t*)rx)[0] = 0x6A; ((uint8_t*)rx)[1] = 0x82; *rl = 2; return 0; }
	static Bytes pick(Src& s) { switch (s.draw(6)) { case 0: return unhex("9F02069F03069F1A0295055F2A029A039C019F3704"); case 1: return unhex("08010100100102011801020120010100"); case 2: return unhex("000000000000000042031E031F00"); case 3: return unhex("3B6500002063CB6800"); case 4: return unhex("6F1A840E315041592E5359532E4444463031A5088801015F2D02656E"); default: return s.bytes(s.range(1, 40)); } }
	explicit Env(Src& s_) : s(s_), data(pick(s_)), d(data), str((size_t)s_.range(1, 400)), out((size_t)s_.range(2, 300)), n(d.n), sn(str.n), on(out.n) {
		static const uint8_t v[2] = {1, 2}; emv_tlv_list_push(&list, 0x9F02, 2, v, 0); emv_tlv_list_push(&other, 0x9F03, 2, v, 0); memset(&ttl, 0, sizeof(ttl)); ttl.cardreader.mode = s.chance(1, 2) ? EMV_CARDREADER_MODE_APDU : EMV_CARDREADER_MODE_TPDU; ttl.cardreader.ctx = this; ttl.cardreader.trx = trx; emv_ctx_init(&ctx, &ttl); src[0] = &list;
		app = emv_app_create_from_fci(unhex("6F098407A0000000031010").data(), 11); if (!app) fail("harness: no application"); emv_app_list_push(&apps, emv_app_create_from_fci(unhex("6F098407A0000000041010").data(), 11));
		static const uint8_t b[] = {0x9F, 0x02, 0x02, 0x01, 0x02}; iso8825_ber_decode(b, sizeof(b), &tlv); iso8825_ber_itr_init(b, sizeof(b), &bitr); emv_dol_itr_init(b, 3, &ditr); static const uint8_t c[] = {0x31, 0x80}; iso7816_compact_tlv_itr_init(c, 2, &citr); static const uint8_t a[] = {0x08, 1, 1, 0}; emv_afl_itr_init(a, 4, &aitr); static const uint8_t m[] = {0, 0, 0, 0, 0, 0, 0, 0, 0x1F, 0}; emv_cvmlist_itr_init(m, 10, &amounts, &vitr); static const uint8_t t[] = {0x3B, 0x00}; iso7816_atr_parse(t, 2, &atr); memset(&field, 0, sizeof(field)); field.ber = tlv;
	}
	~Env() { emv_app_list_clear(&apps); if (app) emv_app_free(app); emv_tlv_list_clear(&list); emv_tlv_list_clear(&other); emv_ctx_clear(&ctx); }
};
enum R { NEG, NZ, NUL, FALSE_, TRUE_, VOID };
// np: number of arguments that may be missing, one bit each: pointers, and lengths of zero
struct Fn { const char* name; R r; unsigned np; std::function<long(Env&)> f; };
template<class T> T* P(Env& e, int k, T* p) { return e.mask >> k & 1 ? nullptr : p; }
inline size_t Z(Env& e, int k, size_t n) { return e.mask >> k & 1 ? 0 : n; }
#define F(name, r, np, ...) {#name, r, np, [](Env& e) -> long { return (long)(__VA_ARGS__); }}
#define STR(name) F(name, NEG, 2, name(P(e, 0, e.d.p), Z(e, 1, e.n), e.str.c(), e.sn))
#define STRX(name) F(name, NEG, 4, name(P(e, 0, e.d.p), Z(e, 1, e.n), P(e, 2, e.str.c()), Z(e, 3, e.sn)))
const Fn FNS[] = {
	F(iso8825_ber_tag_decode, NEG, 2, iso8825_ber_tag_decode(P(e, 0, e.d.p), e.n, P(e, 1, &e.tag))), F(iso8825_ber_decode, NEG, 2, iso8825_ber_decode(P(e, 0, e.d.p), e.n, P(e, 1, &e.tlv))), F(iso8825_ber_is_string, FALSE_, 1, iso8825_ber_is_string(P(e, 0, &e.tlv))),
	F(iso8825_ber_itr_init, NZ, 2, iso8825_ber_itr_init(P(e, 0, e.d.p), e.n, P(e, 1, &e.bitr))), F(iso8825_ber_itr_next, NEG, 2, iso8825_ber_itr_next(P(e, 0, &e.bitr), P(e, 1, &e.tlv))), F(iso8825_ber_oid_decode, NZ, 3, iso8825_ber_oid_decode(P(e, 0, e.d.p), Z(e, 1, e.n), P(e, 2, &e.oid))),
	F(iso7816_atr_parse, NZ, 2, iso7816_atr_parse(P(e, 0, e.d.p), e.n, P(e, 1, &e.atr))), F(iso7816_atr_TS_get_string, NUL, 1, (intptr_t)iso7816_atr_TS_get_string(P(e, 0, &e.atr))), F(iso7816_atr_T0_get_string, NUL, 1, (intptr_t)iso7816_atr_T0_get_string(P(e, 0, &e.atr), e.str.c(), e.sn)),
	F(iso7816_atr_TAi_get_string, NUL, 1, (intptr_t)iso7816_atr_TAi_get_string(P(e, 0, &e.atr), 1, e.str.c(), e.sn)), F(iso7816_atr_TBi_get_string, NUL, 1, (intptr_t)iso7816_atr_TBi_get_string(P(e, 0, &e.atr), 1, e.str.c(), e.sn)), F(iso7816_atr_TCi_get_string, NUL, 1, (intptr_t)iso7816_atr_TCi_get_string(P(e, 0, &e.atr), 1, e.str.c(), e.sn)), F(iso7816_atr_TDi_get_string, NUL, 1, (intptr_t)iso7816_atr_TDi_get_string(P(e, 0, &e.atr), 1, e.str.c(), e.sn)), F(iso7816_atr_T1_get_string, NUL, 1, (intptr_t)iso7816_atr_T1_get_string(P(e, 0, &e.atr))),
	F(iso7816_compact_tlv_decode, NEG, 2, iso7816_compact_tlv_decode(P(e, 0, e.d.p), e.n, P(e, 1, &e.ctlv))), F(iso7816_compact_tlv_itr_init, NZ, 3, iso7816_compact_tlv_itr_init(P(e, 0, e.d.p), Z(e, 1, e.n), P(e, 2, &e.citr))), F(iso7816_compact_tlv_itr_next, NEG, 2, iso7816_compact_tlv_itr_next(P(e, 0, &e.citr), P(e, 1, &e.ctlv))),
	F(iso7816_capdu_get_string, NUL, 4, (intptr_t)iso7816_capdu_get_string(P(e, 0, e.d.p), Z(e, 1, e.n), P(e, 2, e.str.c()), Z(e, 3, e.sn))), F(iso7816_sw1sw2_get_string, NUL, 2, (intptr_t)iso7816_sw1sw2_get_string(0x90, 0, P(e, 0, e.str.c()), Z(e, 1, e.sn))), STR(iso7816_card_capabilities_get_string_list),
	F(emv_ctx_init, NEG, 2, emv_ctx_init(P(e, 0, &e.ctx), P(e, 1, &e.ttl))), F(emv_ctx_reset, NEG, 1, emv_ctx_reset(P(e, 0, &e.ctx))), F(emv_ctx_clear, NEG, 1, emv_ctx_clear(P(e, 0, &e.ctx))), F(emv_atr_parse, NEG, 2, emv_atr_parse(P(e, 0, e.d.p), Z(e, 1, e.n))), F(emv_build_candidate_list, NEG, 2, emv_build_candidate_list(P(e, 0, &e.ctx), P(e, 1, &e.apps))), F(emv_select_application, NEG, 2, emv_select_application(P(e, 0, &e.ctx), P(e, 1, &e.apps), 0)), F(emv_initiate_application_processing, NEG, 1, emv_initiate_application_processing(P(e, 0, &e.ctx), 5)), F(emv_read_application_data, NEG, 1, emv_read_application_data(P(e, 0, &e.ctx))),
	F(emv_app_create_from_pse, NUL, 1, (intptr_t)emv_app_create_from_pse(nullptr, P(e, 0, e.d.p), e.n)), F(emv_app_create_from_fci, NUL, 1, (intptr_t)emv_app_create_from_fci(P(e, 0, e.d.p), e.n)), F(emv_app_free, NZ, 1, emv_app_free(P(e, 0, e.app))), F(emv_app_is_supported, FALSE_, 1, emv_app_is_supported(P(e, 0, e.app), &e.list)),
	F(emv_app_list_is_empty, TRUE_, 1, emv_app_list_is_empty(P(e, 0, &e.apps))), F(emv_app_list_push, NZ, 2, emv_app_list_push(P(e, 0, &e.apps), P(e, 1, e.app))), F(emv_app_list_pop, NUL, 1, (intptr_t)emv_app_list_pop(P(e, 0, &e.apps))), F(emv_app_list_remove_index, NUL, 1, (intptr_t)emv_app_list_remove_index(P(e, 0, &e.apps), 0)), F(emv_app_list_sort_priority, NZ, 1, emv_app_list_sort_priority(P(e, 0, &e.apps))), F(emv_app_list_selection_is_required, FALSE_, 1, emv_app_list_selection_is_required(P(e, 0, &e.apps))), F(emv_app_list_clear, VOID, 1, (emv_app_list_clear(P(e, 0, &e.apps)), 0)),
	F(emv_dol_decode, NEG, 2, emv_dol_decode(P(e, 0, e.d.p), e.n, P(e, 1, &e.dole))), F(emv_dol_itr_init, NZ, 2, emv_dol_itr_init(P(e, 0, e.d.p), e.n, P(e, 1, &e.ditr))), F(emv_dol_itr_next, NEG, 2, emv_dol_itr_next(P(e, 0, &e.ditr), P(e, 1, &e.dole))), F(emv_dol_compute_data_length, NEG, 2, emv_dol_compute_data_length(P(e, 0, e.d.p), Z(e, 1, e.n))),
	F(emv_dol_build_data, NZ, 7, emv_dol_build_data(P(e, 0, e.d.p), Z(e, 1, e.n), P(e, 2, (const struct emv_tlv_list_t**)e.src), Z(e, 3, 1), P(e, 4, e.out.p), (e.on = Z(e, 5, e.on), P(e, 6, &e.on)))),
	F(emv_aid_get_info, NZ, 3, emv_aid_get_info(P(e, 0, e.d.p), Z(e, 1, e.n), P(e, 2, &e.aid))), F(emv_afl_itr_init, NZ, 3, emv_afl_itr_init(P(e, 0, e.d.p), Z(e, 1, e.n), P(e, 2, &e.aitr))), F(emv_afl_itr_next, NEG, 2, emv_afl_itr_next(P(e, 0, &e.aitr), P(e, 1, &e.afle))), F(emv_cvmlist_itr_init, NZ, 4, emv_cvmlist_itr_init(P(e, 0, e.d.p), Z(e, 1, e.n), P(e, 2, &e.amounts), P(e, 3, &e.vitr))), F(emv_cvmlist_itr_next, NEG, 2, emv_cvmlist_itr_next(P(e, 0, &e.vitr), P(e, 1, &e.rule))), F(emv_iad_get_format, NEG, 2, emv_iad_get_format(P(e, 0, e.d.p), Z(e, 1, e.n)) == EMV_IAD_FORMAT_INVALID ? -1 : 0),
	F(emv_tlv_free, NZ, 1, emv_tlv_free(P(e, 0, (struct emv_tlv_t*)nullptr))), F(emv_tlv_list_is_empty, TRUE_, 1, emv_tlv_list_is_empty(P(e, 0, &e.list))), F(emv_tlv_list_push, NZ, 1, emv_tlv_list_push(P(e, 0, &e.list), 0x9F1A, 1, e.d.p, 0)), F(emv_tlv_list_pop, NUL, 1, (intptr_t)emv_tlv_list_pop(P(e, 0, &e.list))), F(emv_tlv_list_find, NUL, 1, (intptr_t)emv_tlv_list_find(P(e, 0, &e.list), 0x9F02)), F(emv_tlv_list_has_duplicate, FALSE_, 1, emv_tlv_list_has_duplicate(P(e, 0, &e.list))), F(emv_tlv_list_append, NZ, 2, emv_tlv_list_append(P(e, 0, &e.list), P(e, 1, &e.other))), F(emv_tlv_list_clear, VOID, 1, (emv_tlv_list_clear(P(e, 0, &e.list)), 0)),
	F(emv_tlv_parse, NZ, 1, emv_tlv_parse(P(e, 0, e.d.p), e.n, &e.list)), F(emv_tlv_parse list, NZ, 1, [&] { static const uint8_t b[] = {0x5A, 1, 0x12}; return emv_tlv_parse(b, 3, P(e, 0, &e.list)); }()),
	STRX(emv_format_ans_to_non_control_str), STRX(emv_format_ans_to_alnum_space_str), STRX(emv_format_b_to_str), F(emv_uint_to_format_n, NUL, 2, (intptr_t)emv_uint_to_format_n(12, P(e, 0, e.out.p), Z(e, 1, e.on))), F(emv_uint_to_format_b, NUL, 2, (intptr_t)emv_uint_to_format_b(12, P(e, 0, e.out.p), Z(e, 1, e.on))), F(emv_format_n_to_uint, NZ, 3, emv_format_n_to_uint(P(e, 0, e.d.p), Z(e, 1, e.n), P(e, 2, &e.value))), F(emv_format_b_to_uint, NZ, 3, emv_format_b_to_uint(P(e, 0, e.d.p), Z(e, 1, e.n), P(e, 2, &e.value))),
	F(emv_ttl_trx, NEG, 7, emv_ttl_trx(P(e, 0, &e.ttl), P(e, 1, e.d.p), Z(e, 2, e.n), P(e, 3, e.out.p), (e.on = Z(e, 4, e.on), P(e, 5, &e.on)), P(e, 6, &e.sw))),
	F(emv_ttl_select_by_df_name, NEG, 6, emv_ttl_select_by_df_name(P(e, 0, &e.ttl), P(e, 1, e.d.p), 7, P(e, 2, e.out.p), (e.on = Z(e, 3, e.on), P(e, 4, &e.on)), P(e, 5, &e.sw))), F(emv_ttl_select_by_df_name_next, NEG, 6, emv_ttl_select_by_df_name_next(P(e, 0, &e.ttl), P(e, 1, e.d.p), 7, P(e, 2, e.out.p), (e.on = Z(e, 3, e.on), P(e, 4, &e.on)), P(e, 5, &e.sw))),
	F(emv_ttl_read_record, NEG, 5, emv_ttl_read_record(P(e, 0, &e.ttl), 1, 1, P(e, 1, e.out.p), (e.on = Z(e, 2, e.on), P(e, 3, &e.on)), P(e, 4, &e.sw))), F(emv_ttl_get_processing_options, NEG, 5, emv_ttl_get_processing_options(P(e, 0, &e.ttl), nullptr, 0, P(e, 1, e.out.p), (e.on = Z(e, 2, e.on), P(e, 3, &e.on)), P(e, 4, &e.sw))),
	F(emv_tal_read_pse, NEG, 2, emv_tal_read_pse(P(e, 0, &e.ttl), &e.list, P(e, 1, &e.apps))), F(emv_tal_find_supported_apps, NEG, 3, emv_tal_find_supported_apps(P(e, 0, &e.ttl), P(e, 1, &e.list), P(e, 2, &e.apps))), F(emv_tal_select_app, NEG, 4, [&] { struct emv_app_t* a = nullptr; return emv_tal_select_app(P(e, 0, &e.ttl), P(e, 1, e.d.p), Z(e, 2, 7), P(e, 3, &a)); }()), F(emv_tal_get_processing_options, NEG, 2, emv_tal_get_processing_options(P(e, 0, &e.ttl), nullptr, 0, P(e, 1, &e.list), &e.aip, &e.afl)), F(emv_tal_get_processing_options data, NEG, 1, emv_tal_get_processing_options(&e.ttl, P(e, 0, e.d.p), 4, &e.list, &e.aip, &e.afl)), F(emv_tal_read_afl_records, NEG, 4, emv_tal_read_afl_records(P(e, 0, &e.ttl), P(e, 1, e.d.p), Z(e, 2, e.n), P(e, 3, &e.list))),
	F(emv_tlv_get_info, NZ, 2, emv_tlv_get_info(P(e, 0, &e.field), P(e, 1, &e.info), e.str.c(), e.sn)),
	STRX(emv_format_a_get_string), STRX(emv_format_an_get_string), STRX(emv_format_ans_only_space_get_string), STRX(emv_format_ans_ccs_get_string), STRX(emv_format_cn_get_string), STRX(emv_format_n_get_string),
	F(emv_str_to_format_cn, NEG, 3, emv_str_to_format_cn(P(e, 0, "1234"), P(e, 1, e.out.p), Z(e, 2, e.on))), F(emv_str_to_format_n, NEG, 3, emv_str_to_format_n(P(e, 0, "1234"), P(e, 1, e.out.p), Z(e, 2, e.on))),
	STR(emv_amount_get_string), STR(emv_date_get_string), STR(emv_time_get_string), STR(emv_mcc_get_string), STR(emv_term_caps_get_string_list), STR(emv_addl_term_caps_get_string_list), STR(emv_aid_get_string), STR(emv_asrpd_get_string_list), STR(emv_aip_get_string_list), STR(emv_afl_get_string_list), STR(emv_app_usage_control_get_string_list), STR(emv_track2_equivalent_data_get_string), STR(emv_app_reference_currency_get_string_list), STR(emv_language_preference_get_string_list), STR(emv_cvm_list_get_string_list), STR(emv_cvm_results_get_string_list), STR(emv_tvr_get_string_list), STR(emv_tsi_get_string_list), STR(emv_iad_get_string_list), STR(emv_terminal_risk_management_data_get_string_list), STR(emv_ttq_get_string_list), STR(emv_ctq_get_string_list), STR(emv_mastercard_third_party_data_get_string_list), STR(emv_visa_form_factor_indicator_get_string_list), STR(emv_amex_enh_cl_reader_caps_get_string_list), STR(emv_auth_response_code_get_string), STR(emv_issuer_auth_data_get_string_list), STR(emv_capdu_get_string),
};
const size_t NF = sizeof(FNS) / sizeof(FNS[0]);
// functions that describe something; the text may be left out
typedef int (*StrFn)(const uint8_t*, size_t, char*, size_t); typedef int (*ByteFn)(uint8_t, char*, size_t);
#define S_(f) {#f, (StrFn)f, nullptr}
#define B_(f) {#f, nullptr, (ByteFn)f}
const struct { const char* name; StrFn f; ByteFn b; } STRS[] = {S_(emv_amount_get_string), S_(emv_date_get_string), S_(emv_time_get_string), S_(emv_mcc_get_string), S_(emv_term_caps_get_string_list), S_(emv_addl_term_caps_get_string_list), S_(emv_aid_get_string), S_(emv_asrpd_get_string_list), S_(emv_aip_get_string_list), S_(emv_afl_get_string_list), S_(emv_app_usage_control_get_string_list), S_(emv_track2_equivalent_data_get_string), S_(emv_app_reference_currency_get_string_list), S_(emv_language_preference_get_string_list), S_(emv_cvm_list_get_string_list), S_(emv_cvm_results_get_string_list), S_(emv_tvr_get_string_list), S_(emv_tsi_get_string_list), S_(emv_iad_get_string_list), S_(emv_terminal_risk_management_data_get_string_list), S_(emv_ttq_get_string_list), S_(emv_ctq_get_string_list), S_(emv_mastercard_third_party_data_get_string_list), S_(emv_visa_form_factor_indicator_get_string_list), S_(emv_amex_enh_cl_reader_caps_get_string_list), S_(emv_auth_response_code_get_string), S_(emv_issuer_auth_data_get_string_list), S_(emv_capdu_get_string), S_(iso7816_card_capabilities_get_string_list),
	B_(emv_transaction_type_get_string), B_(emv_term_type_get_string_list), B_(emv_pos_entry_mode_get_string), B_(emv_account_type_get_string), B_(emv_cid_get_string_list), B_(emv_amex_cl_reader_caps_get_string), B_(iso7816_card_service_data_get_string_list)};
const size_t NS = sizeof(STRS) / sizeof(STRS[0]);
}

VH_PROP(C42, missing, 120000, 3000000, "a library function with one or more required pointers missing or lengths zero, all else valid; non-trivial: always") {
	const Fn& f = FNS[s.draw(NF)]; unsigned mask = s.chance(1, 2) ? 1u << s.draw(f.np) : 1 + (unsigned)s.draw((1u << f.np) - 1); s.nontrivial(); s.label(f.name); if (s.want()) s.desc(fmt("%s, missing arguments %X", f.name, mask));
	{
		Env e(s); e.mask = mask; long r = f.f(e); bool ok = f.r == NEG ? r < 0 : f.r == NZ ? r != 0 : f.r == NUL || f.r == FALSE_ ? r == 0 : f.r == TRUE_ ? r == 1 : true;
		if (!ok) fail("%s with missing arguments %X (data of %zu octets) gives %ld", f.name, mask, e.n, r); REQUIRE(e.exchanges == 0, "%s with missing arguments %X reaches the card", f.name, mask);
		REQUIRE(e.list.front && e.list.front->tag == 0x9F02 && !e.list.front->next && e.list.back == e.list.front && e.other.front && e.other.front->tag == 0x9F03 && !e.other.front->next && e.apps.front && !e.apps.front->next, "%s with missing arguments %X changes a list", f.name, mask);
	}
	REQUIRE(alloc_live() == 0, "%s with missing arguments %X leaks", f.name, mask);
}
VH_PROP(C42, silent, 60000, 2000000, "a description asked for without a place for it (no buffer, or length zero); non-trivial: the data is valid for the function") {
	const auto& f = STRS[s.draw(NS)]; Bytes b = s.chance(1, 2) ? s.bytes(s.range(1, 32)) : Env::pick(s); Exact d(b), str((size_t)512, 0xA5); bool nul = s.chance(1, 2); s.label(f.name); if (s.want()) s.desc(std::string(f.name) + " " + hex(b));
	int full = f.f ? f.f(d.p, d.n, str.c(), str.n) : f.b(b[0], str.c(), str.n); Exact none((size_t)1); int r = f.f ? f.f(d.p, d.n, nul ? nullptr : none.c(), 0) : f.b(b[0], nul ? nullptr : none.c(), 0);
	if (full == 0) s.nontrivial(); REQUIRE(none.p[0] == 0xA5, "%s writes to a buffer of length zero", f.name); REQUIRE(r <= 0 || r == full, "%s without a buffer gives %d, with one %d", f.name, r, full);
}
