#include "ompl/stub.h"
