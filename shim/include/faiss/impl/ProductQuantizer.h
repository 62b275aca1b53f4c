#pragma once
#include "vshim/faiss.h"
