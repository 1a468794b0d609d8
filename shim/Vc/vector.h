#pragma once
#include "Vc"
