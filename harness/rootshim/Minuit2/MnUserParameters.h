#include <Minuit2/MinuitShim.h>
