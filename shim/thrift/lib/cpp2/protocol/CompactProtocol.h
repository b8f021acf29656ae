#pragma once
#include <thrift/lib/cpp2/GeneratedCodeHelper.h>
