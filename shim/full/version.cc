/* What waf would generate */

#include "version.h"

char const * dcp::version = "1.0";
char const * dcp::git_commit = "0";
bool const dcp::built_with_debug = false;
