/* C17: names, lists and error texts */
#include "ref.h"
#include "image.h"
int main(void) {
	int c = nd_choice(0,4);
	if(c == 0) {
		int e = nd_i32();
		VASSUME(e != INT_MIN);
		int max = resdet_get_max_error();
		VASSERT(max == RDENOIMG,"the largest error is the last of the list");
		if(e < 0) { VASSUME(e > -200); VASSERT(resdet_error_str((int)v_concretize(e)) != NULL,"system errors have a text"); VWITNESS("system error"); return 0; }
		const char* s = resdet_error_str(e);
		VASSERT((s != NULL) == (e <= max),"a text exactly for known errors");
		if(s) VASSERT((*s == 0) == (e == RDEOK),"only success has an empty text");
		else VWITNESS("unknown error");
	}
	else if(c == 1) {
		/* lookup: exactly the listed names, exactly */
		char name[8]; int n = nd_choice(0,6);
		for(int i = 0; i < n; i++) { name[i] = nd_u8(); VASSUME(name[i]); }
		name[n] = 0;
		RDMethod* m = resdet_get_method(name);
		RDMethod* want = NULL;
		for(RDMethod* q = resdet_methods(); q->name; q++) if(!strcmp(q->name,name)) want = q;
		VASSERT(m == want,"found by exact name only");
		VCOVER(m != NULL,"found"); VCOVER(m == NULL,"not found");
	}
	else if(c == 2) {
		unsigned n = 0;
		VASSERT(resdet_get_method(NULL) == resdet_methods(),"no name: the default, which is first");
		for(RDMethod* q = resdet_methods(); q->name; q++, n++) {
			VASSERT(q->func != NULL && q->threshold >= 0 && q->threshold <= 1,"usable method");
			VASSERT(resdet_get_method(q->name) == q,"names are unique");
		}
		VASSERT(n >= 4,"all methods listed");
		for(int i = 0; i < 4; i++) VASSERT(resdet_get_method(ref_name[i]) != NULL,"documented method exists");
		VASSERT(!strcmp(resdet_methods()->name,"sign"),"the default is sign");
	}
	else if(c == 3) {
		RDError a = nd_choice(0,7), b = nd_choice(0,7);
		VASSERT(a == b || strcmp(resdet_error_str(a),resdet_error_str(b)),"errors are distinguishable by text");
	}
	else {
		const char* v = resdet_libversion();
		VASSERT(v && *v,"version");
	}
	return 0;
}
