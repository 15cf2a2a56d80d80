// forwarding header of the stand-in
#pragma once
#include "matar.h"
