#pragma once
#include <wblib/all.h>
