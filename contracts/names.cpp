// VC: units = StringPattern.cpp
// Contract of name patterns: '*' stands for any characters, '|' separates alternatives (bounded: short patterns and names).
#include "vc.h"
#include "StringPattern.h"

static bool glob(const char* p, const char* e, const char* s)     // the definition
{
	if(p == e) return *s == 0;
	if(*p == '*') return glob(p + 1, e, s) || (*s != 0 && glob(p, e, s + 1));
	return *s == *p && glob(p + 1, e, s + 1);
}
static bool matches(const char* p, const char* s)
{
	const char* e = p;
	while(*e != 0 && *e != '|') ++e;
	return glob(p, e, s) || (*e != 0 && matches(e + 1, s));
}
static void all_names(const std::string& pat, int most)
{
	StringPattern sp(pat);
	for(int len = 0; len <= most; len++)
		for(int bits = 0; bits < (1 << len); bits++) {
			std::string s;
			for(int i = 0; i < len; i++) s += (bits >> i) & 1 ? 'b' : 'a';
			vc_assert("matches", sp.Match(s) == matches(pat.c_str(), s.c_str()));
			vc_assert("matches", sp(s) == sp.Match(s));
		}
	vc_assert("shown as given", (std::string) sp == pat);
}
static std::string pattern(int len, int code)
{
	std::string p;
	for(int i = 0; i < len; i++) { p += "ab*"[code % 3]; code /= 3; }
	return p;
}
VC_ENTRY(short_patterns)
{
	int len = vc_int("length", 0, 3), n = 1;
	for(int i = 0; i < len; i++) n *= 3;
	for(int c = 0; c < n; c++) all_names(pattern(len, c), 4);
	vc_reach("post");
}
static void patterns_from(char first, int len)    // a pattern with a and b exchanged is as good
{
	int n = 1;
	for(int i = 0; i < len; i++) n *= 3;
	for(int c = 0; c < n; c++) {
		std::string p = pattern(len, c);
		if(p[0] == first && p.find('b') >= p.find('a') && p.find('*') != std::string::npos && p.find("**") == std::string::npos) all_names(p, 4);
	}
	vc_reach("post");
}
VC_ENTRY(patterns_of_four) { patterns_from('a', 4); }
VC_ENTRY(patterns_of_four_open) { patterns_from('*', 4); }
VC_ENTRY(patterns_of_five) { patterns_from('a', 5); }
VC_ENTRY(patterns_of_five_open) { patterns_from('*', 5); }
VC_ENTRY(longer_patterns)
{
	static const char* const p[] = {"a*b*", "*a*b", "a*b*a", "*ab*a*", "ab*ba", "*aba", "a**b", "aa*bb*aa"};
	all_names(p[vc_int("pattern", 0, 7)], 5);
	vc_reach("post");
}
VC_ENTRY(alternatives)
{
	static const char* const p[] = {"a|b", "a*|*b", "ab|ba|*aa", "b*b|a"};
	all_names(p[vc_int("pattern", 0, 3)], 4);
	vc_reach("post");
}
