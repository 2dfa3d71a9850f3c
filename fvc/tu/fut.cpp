// translation unit of the unit test framework, with the checks users write
#include <falcon/fut/fut.h>
#include FALCON_FUT(testcase.cpp)
#include FALCON_FUT(unittest.cpp)
#undef unix
#include FALCON_FUT(marktime-unix.c++)
#include FALCON_FUT(fut_main.cpp)
namespace vf {
using namespace falcon;
void anything();                    // may throw anything, or not
struct Oops { int code; };
class Probe: public testing::TestCase {
public:
  void eq_int(int64 a, int64 b); void ne_int(int64 a, int64 b); void gt_int(int64 a, int64 b); void ge_int(int64 a, int64 b); void lt_int(int64 a, int64 b); void le_int(int64 a, int64 b);
  void eq_bool(bool a, bool b); void ne_bool(bool a, bool b); void eq_str(const std::string& a, const std::string& b); void ne_str(const std::string& a, const std::string& b);
  void streq(const char* a, const char* b); void strne(const char* a, const char* b); void is_true(bool a); void is_false(bool a); void true_int(int a); void false_int(int a);
  void float_eq(double a, double b); void float_ne(double a, double b); void float_sum(double a, double b, double c); void float_diff(double a, double b, double c); void eq_cond(int64 a, int64 b, int64 c); void true_or(bool a, bool b); void false_cond(bool a, bool b, bool c); void two(int64 a, int64 b, int64 c);
  void message(); void throws(); void throws_any(); void throws_not();
  void reason(const char* file, int line, const char* why) { fail(file, line, why); }
};
#line 5001 "/a dir/with.dots/probe.cpp"
void Probe::eq_int(int64 a, int64 b) { EXPECT_EQ(a, b) }
void Probe::ne_int(int64 a, int64 b) { EXPECT_NE(a, b) }
void Probe::gt_int(int64 a, int64 b) { EXPECT_GT(a, b) }
void Probe::ge_int(int64 a, int64 b) { EXPECT_GE(a, b) }
void Probe::lt_int(int64 a, int64 b) { EXPECT_LT(a, b) }
void Probe::le_int(int64 a, int64 b) { EXPECT_LE(a, b) }
void Probe::eq_bool(bool a, bool b) { EXPECT_EQ(a, b) }
void Probe::ne_bool(bool a, bool b) { EXPECT_NE(a, b) }
void Probe::eq_str(const std::string& a, const std::string& b) { EXPECT_EQ(a, b) }
void Probe::ne_str(const std::string& a, const std::string& b) { EXPECT_NE(a, b) }
void Probe::streq(const char* a, const char* b) { EXPECT_STREQ(a, b) }
void Probe::strne(const char* a, const char* b) { EXPECT_STRNE(a, b) }
void Probe::is_true(bool a) { EXPECT_TRUE(a) }
void Probe::is_false(bool a) { EXPECT_FALSE(a) }
void Probe::true_int(int a) { EXPECT_TRUE(a) }
void Probe::false_int(int a) { EXPECT_FALSE(a) }
void Probe::message() { FAIL("any text"); }
void Probe::throws() { EXPECT_THROW(anything(), Oops) }
void Probe::throws_any() { EXPECT_ANY_THROW(anything()) }
void Probe::throws_not() { EXPECT_NO_THROW(anything()) }
void Probe::float_eq(double a, double b) { EXPECT_FLOAT_EQ(a, b) }
void Probe::float_ne(double a, double b) { EXPECT_FLOAT_NE(a, b) }
void Probe::float_sum(double a, double b, double c) { EXPECT_FLOAT_EQ(a + b, c) }
void Probe::float_diff(double a, double b, double c) { EXPECT_FLOAT_NE(a, b - c) }
void Probe::eq_cond(int64 a, int64 b, int64 c) { EXPECT_EQ(a ? b : c, c ? b : a) }
void Probe::true_or(bool a, bool b) { EXPECT_TRUE(a || b) }
void Probe::false_cond(bool a, bool b, bool c) { EXPECT_FALSE(a ? b : c) }
void Probe::two(int64 a, int64 b, int64 c) { EXPECT_EQ(a, b) EXPECT_EQ(b, c) }
#line 1 "fut.cpp"
namespace a_main { FALCON_TEST_MAIN }
class a_fixture: public testing::TestCase {};
FALCON_TEST(a_component, a_case) {}
FALCON_TEST_F(a_fixture, another_case) {}
void use(testing::TestCase& t, testing::TimeLapse& l) { t.run(); t.beginTest(true); t.endTest(true); (void) l.elapsed(); (void) l.elapsedNow(); l.markBegin(); l.markEnd(); (void) l.begin(); (void) l.end(); testing::waitTime(1); }
}
