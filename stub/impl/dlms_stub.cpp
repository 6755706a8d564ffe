#include "devices/dlms_device.h"
// DLMS needs gurux, which is not available here: the protocol is registered nowhere in the simulator.
void TDlmsDevice::Register(TSerialDeviceFactory&) {}
void DLMS::PrintDeviceTemplateGenerationOptionsUsage() {}
void DLMS::GenerateDeviceTemplate(TDeviceTemplateGenerationMode, PPort, const std::string&, const std::string&, const std::vector<std::string>&) {}
