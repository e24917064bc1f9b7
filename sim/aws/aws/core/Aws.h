#pragma once
#include "../../fake_aws.h"
