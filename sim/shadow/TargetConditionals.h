/* Stand-in for the Darwin header. */
#ifndef SIM_SHADOW_TARGETCONDITIONALS_H
#define SIM_SHADOW_TARGETCONDITIONALS_H
#ifndef SIM_IPHONE
#define SIM_IPHONE 0
#endif
#define TARGET_OS_MAC 1
#define TARGET_OS_IPHONE SIM_IPHONE
#define TARGET_OS_IOS SIM_IPHONE
#define TARGET_OS_OSX (!SIM_IPHONE)
#define TARGET_OS_TV 0
#define TARGET_OS_WATCH 0
#define TARGET_OS_SIMULATOR 0
#define TARGET_OS_MACCATALYST 0
#endif
