#ifndef VF_STUB_ASSERT_HPP
#define VF_STUB_ASSERT_HPP
namespace vfstub {
[[noreturn]] void assert_fail_prd();
[[noreturn]] void assert_fail();
void assert_fail_dbg();
}
#define VF_A_(c, f) (static_cast<bool>(c) ? static_cast<void>(0) : ::vfstub::f())
#define SCORE_LANGUAGE_FUTURECPP_ASSERT(c) VF_A_(c, assert_fail)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_MESSAGE(c, m) VF_A_(c, assert_fail)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD(c) VF_A_(c, assert_fail_prd)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(c, m) VF_A_(c, assert_fail_prd)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_PROD(c) VF_A_(c, assert_fail_prd)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(c) VF_A_(c, assert_fail_dbg)
#define SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG_MESSAGE(c, m) VF_A_(c, assert_fail_dbg)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION(c) VF_A_(c, assert_fail)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_MESSAGE(c, m) VF_A_(c, assert_fail)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD(c) VF_A_(c, assert_fail_prd)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_PRD_MESSAGE(c, m) VF_A_(c, assert_fail_prd)
#define SCORE_LANGUAGE_FUTURECPP_PRECONDITION_DBG(c) VF_A_(c, assert_fail_dbg)
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE() ::vfstub::assert_fail_prd()
#define SCORE_LANGUAGE_FUTURECPP_UNREACHABLE_MESSAGE(m) ::vfstub::assert_fail_prd()
#endif
