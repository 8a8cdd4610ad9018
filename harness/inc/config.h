/* minimal configuration for compiling /repo's sources outside its build tree */
#define _GL_UNUSED __attribute__ ((__unused__))
#define _UNUSED_PARAMETER_ _GL_UNUSED
#define _GL_ATTRIBUTE_PURE __attribute__ ((__pure__))
