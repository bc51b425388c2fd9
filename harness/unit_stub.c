/* Unit list handling for harnesses which encode the context without BKUnit.c */
#include "BlipKit.h"
void BKUnitDetach (BKUnit * unit)
{
	BKContext * ctx = unit -> ctx;
	if (ctx) {
		if (unit -> prevUnit) unit -> prevUnit -> nextUnit = unit -> nextUnit; else ctx -> firstUnit = unit -> nextUnit;
		if (unit -> nextUnit) unit -> nextUnit -> prevUnit = unit -> prevUnit; else ctx -> lastUnit = unit -> prevUnit;
		unit -> ctx = NULL;
	}
}
