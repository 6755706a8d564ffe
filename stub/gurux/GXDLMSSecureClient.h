// Stand-in for gurux (not installed here): just enough for devices/dlms_device.h to compile. No DLMS behaviour.
#pragma once
enum DLMS_SECURITY { DLMS_SECURITY_NONE = 0 };
enum DLMS_AUTHENTICATION { DLMS_AUTHENTICATION_NONE = 0 };
enum DLMS_INTERFACE_TYPE { DLMS_INTERFACE_TYPE_HDLC = 0 };
class CGXDLMSSecureClient {};
class CGXByteBuffer {};
class CGXReplyData {};
class CGXDLMSObject {};
class CGXDLMSObjectCollection {};
