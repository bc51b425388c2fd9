/* Status names */
#include "vp.h"
#include "BKBase.h"

int main (void)
{
	BKEnum status = vp_any_uint ("status");
	char const * name = BKStatusGetName (status);
	vp_assert (name != NULL, "every status has a name");
	char const * unknown = BKStatusGetName (0x7FFFFFF0);
	BKInt s = (BKInt) status;
	if (s > BK_RETURN_TYPE && s <= BK_OTHER_ERROR) {
		vp_assert (name != unknown && name [0] >= 'A' && name [0] <= 'Z', "every error code has its own name");
		BKEnum other = vp_any_uint ("other");
		if (other != status && (BKInt) other > BK_RETURN_TYPE && (BKInt) other <= BK_OTHER_ERROR)
			vp_assert (BKStatusGetName (other) != name, "different errors have different names");
	}
	else
		vp_assert (name == unknown && name [0] == 'U' && name [7] == ' ', "anything else is unknown");
	vp_reach ();
	return 0;
}
