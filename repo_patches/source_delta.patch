From e2ae2c9d8867bc9823d818030bdcd7c2ace2e620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 001/138] fix: pace real-time runs with the steady clock and
 start the catch-up timer at ResetClock

Calendar clock adjustments made the pacing sleep for the size of the jump or skip
simulated time, and the first late step was compared with an uninitialised time.
---
 src/environment/global/simulation_time.cpp | 7 +++++--
 src/environment/global/simulation_time.hpp | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/environment/global/simulation_time.cpp b/src/environment/global/simulation_time.cpp
index 6438e50..b0d032b 100644
--- a/src/environment/global/simulation_time.cpp
+++ b/src/environment/global/simulation_time.cpp
@@ -94,7 +94,7 @@ void SimulationTime::UpdateTime(void) {
   InitializeState();
   elapsed_time_sec_ += step_sec_;
   if (simulation_speed_ > 0) {
-    chrono::system_clock clk;
+    chrono::steady_clock clk;
     int toWaitTime = (int)(elapsed_time_sec_ * 1000 -
                            chrono::duration_cast<chrono::milliseconds>(clk.now() - clock_start_time_millisec_).count() * simulation_speed_);
     if (toWaitTime <= 0) {
@@ -177,7 +177,10 @@ void SimulationTime::UpdateTime(void) {
   state_.running = true;
 }
 
-void SimulationTime::ResetClock(void) { clock_start_time_millisec_ = chrono::system_clock::now(); }
+void SimulationTime::ResetClock(void) {
+  clock_start_time_millisec_ = chrono::steady_clock::now();
+  clock_last_time_completed_step_in_time_ = clock_start_time_millisec_;
+}
 
 void SimulationTime::PrintStartDateTime(void) const {
   int sec_int = int(start_sec_ + 0.5);
diff --git a/src/environment/global/simulation_time.hpp b/src/environment/global/simulation_time.hpp
index 7a2093c..8b1b8d5 100644
--- a/src/environment/global/simulation_time.hpp
+++ b/src/environment/global/simulation_time.hpp
@@ -281,9 +281,9 @@ class SimulationTime : public logger::ILoggable {
   TimeState state_;               //!< State of timing controller
 
   // Calculation time measure
-  std::chrono::system_clock::time_point clock_start_time_millisec_;  //!< Simulation start time [ms]
+  std::chrono::steady_clock::time_point clock_start_time_millisec_;  //!< Simulation start time [ms]
   // chrono::system_clock::time_point clock_elapsed_time_millisec_;  //!< Simulation elapsed time in real time simulation [ms]
-  std::chrono::system_clock::time_point clock_last_time_completed_step_in_time_;  //!< Simulation finished time [ms]
+  std::chrono::steady_clock::time_point clock_last_time_completed_step_in_time_;  //!< Simulation finished time [ms]
 
   // Constants
   double end_sec_;                        //!< Time from start of simulation to end [sec]
-- 
2.43.0


From 812f41891fb00241b2f2512b5b9183084fea9529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 002/138] fix: initialise the tick counter of ClockGenerator

---
 src/environment/global/clock_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/global/clock_generator.hpp b/src/environment/global/clock_generator.hpp
index 87361d7..a684fbd 100644
--- a/src/environment/global/clock_generator.hpp
+++ b/src/environment/global/clock_generator.hpp
@@ -56,7 +56,7 @@ class ClockGenerator {
 
  private:
   std::vector<components::ITickable*> components_;  //!< Component list fot tick
-  unsigned int timer_count_;                        //!< Timer count TODO: change to long?
+  unsigned int timer_count_ = 0;                        //!< Timer count TODO: change to long?
 };
 
 }  // namespace s2e::environment
-- 
2.43.0


From 7cb2023b572e0d75faf7e172daba5fe2825ddf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 003/138] fix: power ports are off until a voltage is applied
 instead of uninitialised

---
 src/components/ports/power_port.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/ports/power_port.hpp b/src/components/ports/power_port.hpp
index 98d0a74..c33d830 100644
--- a/src/components/ports/power_port.hpp
+++ b/src/components/ports/power_port.hpp
@@ -126,7 +126,7 @@ class PowerPort {
 
   double voltage_V_;              //!< Voltage of the power line[V]
   double current_consumption_A_;  //!< Current consumption calculated by I = P/V[A]
-  bool is_on_;                    //!< Power switch state
+  bool is_on_ = false;            //!< Power switch state
 
   /**
    * @fn Initialize
-- 
2.43.0


From bff95e2e3790513f18d3e6586ed149e23ea3109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 004/138] fix: give each direction of an OBC UART port the
 buffer size configured for it

---
 src/components/base/uart_communication_with_obc.cpp    | 2 +-
 src/components/real/cdh/on_board_computer.cpp          | 2 +-
 src/components/real/cdh/on_board_computer_with_c2a.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/components/base/uart_communication_with_obc.cpp b/src/components/base/uart_communication_with_obc.cpp
index 74a7f92..2d800ad 100644
--- a/src/components/base/uart_communication_with_obc.cpp
+++ b/src/components/base/uart_communication_with_obc.cpp
@@ -113,7 +113,7 @@ void UartCommunicationWithObc::InitializeObcComBase() {
     case SimulationMode::kError:
       break;
     case SimulationMode::kSils:
-      ret = obc_->ConnectComPort(sils_port_id_, tx_buffer_size_, rx_buffer_size_);
+      ret = obc_->ConnectComPort(sils_port_id_, rx_buffer_size_, tx_buffer_size_);
       if (ret != 0) {
         std::cout << "Already connected: ObcCommunication ConnectComPort ID:" << sils_port_id_ << "\n";
         is_connected_ = false;
diff --git a/src/components/real/cdh/on_board_computer.cpp b/src/components/real/cdh/on_board_computer.cpp
index c661fc6..d6a52bc 100644
--- a/src/components/real/cdh/on_board_computer.cpp
+++ b/src/components/real/cdh/on_board_computer.cpp
@@ -32,7 +32,7 @@ int OnBoardComputer::ConnectComPort(int port_id, int tx_buffer_size, int rx_buff
     // Port already used
     return -1;
   }
-  uart_ports_[port_id] = new UartPort(tx_buffer_size, rx_buffer_size);
+  uart_ports_[port_id] = new UartPort(rx_buffer_size, tx_buffer_size);
   return 0;
 }
 
diff --git a/src/components/real/cdh/on_board_computer_with_c2a.cpp b/src/components/real/cdh/on_board_computer_with_c2a.cpp
index 407c393..9e8ff6b 100644
--- a/src/components/real/cdh/on_board_computer_with_c2a.cpp
+++ b/src/components/real/cdh/on_board_computer_with_c2a.cpp
@@ -86,7 +86,7 @@ int ObcWithC2a::ConnectComPort(int port_id, int tx_buffer_size, int rx_buffer_si
     // Port already used
     return -1;
   }
-  com_ports_c2a_[port_id] = new UartPort(tx_buffer_size, rx_buffer_size);
+  com_ports_c2a_[port_id] = new UartPort(rx_buffer_size, tx_buffer_size);
   return 0;
 }
 
-- 
2.43.0


From c2e4d2b7ac1ad8a1ccbc5feab6e5ad271fb800fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 005/138] fix: bound UART command reception and telemetry by
 the buffers actually used

---
 src/components/base/uart_communication_with_obc.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/components/base/uart_communication_with_obc.cpp b/src/components/base/uart_communication_with_obc.cpp
index 2d800ad..ce9340d 100644
--- a/src/components/base/uart_communication_with_obc.cpp
+++ b/src/components/base/uart_communication_with_obc.cpp
@@ -140,17 +140,19 @@ int UartCommunicationWithObc::ReceiveCommand(const unsigned int offset, const un
   if (simulation_mode_ == SimulationMode::kError) return -1;
   if (offset > rx_buffer_size_) return -1;
   if (offset + rec_size > rx_buffer_size_) return -1;
-  rx_buffer_.resize(rec_size);
+  if (rec_size == 0) return 0;
+
+  rx_buffer_.resize(offset + rec_size);
 
   int ret;
   switch (simulation_mode_) {
     case SimulationMode::kSils:
       ret = obc_->ReceivedByCompo(sils_port_id_, &rx_buffer_.front(), offset, rec_size);
-      if (ret == 0) return 0;  // No read data
+      if (ret <= 0) return ret;  // No read data or port error
       return ParseCommand(ret);
     case SimulationMode::kHils:
       ret = hils_port_manager_->UartReceive(hils_port_id_, &rx_buffer_.front(), offset, rec_size);
-      if (ret == 0) return 0;  // No read data
+      if (ret <= 0) return ret;  // No read data or port error
       return ParseCommand(ret);
     default:
       // NOT REACHED
@@ -161,8 +163,9 @@ int UartCommunicationWithObc::ReceiveCommand(const unsigned int offset, const un
 int UartCommunicationWithObc::SendTelemetry(const unsigned int offset) {
   if (simulation_mode_ == SimulationMode::kError) return -1;
   int tlm_size = GenerateTelemetry();
-  if (offset > rx_buffer_size_) return -1;
-  if (offset + tlm_size > rx_buffer_size_) return -1;
+  if (tlm_size < 0) return -1;
+  if (offset > tx_buffer_size_) return -1;
+  if (offset + tlm_size > tx_buffer_size_) return -1;
 
   switch (simulation_mode_) {
     case SimulationMode::kSils:
-- 
2.43.0


From a61c966d87656c8a9ad88375ff0df0bbd93a476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 006/138] fix: send the whole telemetry frame from the serial
 communication example

---
 .../examples/example_serial_communication_with_obc.cpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/examples/example_serial_communication_with_obc.cpp b/src/components/examples/example_serial_communication_with_obc.cpp
index 3017ea9..09ff6b7 100644
--- a/src/components/examples/example_serial_communication_with_obc.cpp
+++ b/src/components/examples/example_serial_communication_with_obc.cpp
@@ -45,7 +45,7 @@ int ExampleSerialCommunicationWithObc::GenerateTelemetry() {
     tx_buffer_[i] = (unsigned char)memory_[i];
   }
   tx_buffer_.assign(std::begin(tx_buffer_), std::end(tx_buffer_));
-  return sizeof(tx_buffer_);
+  return kMaxMemoryLength;
 }
 void ExampleSerialCommunicationWithObc::MainRoutine(const int time_count) {
   UNUSED(time_count);
-- 
2.43.0


From e36562eb58e02e64a96765f92adfa283331b04f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 007/138] fix: address I2C registers correctly from the
 component side, reject unknown ports and stop at the end of the register
 space

---
 src/components/real/cdh/on_board_computer.cpp      |  9 ++++++---
 .../real/cdh/on_board_computer_with_c2a.cpp        | 14 ++++++++++----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/components/real/cdh/on_board_computer.cpp b/src/components/real/cdh/on_board_computer.cpp
index d6a52bc..4df92b4 100644
--- a/src/components/real/cdh/on_board_computer.cpp
+++ b/src/components/real/cdh/on_board_computer.cpp
@@ -95,21 +95,24 @@ int OnBoardComputer::I2cCloseComPort(int port_id) {
 int OnBoardComputer::I2cComponentWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address,
                                                const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
-  for (int i = 0; i < length; i++) {
-    i2c_port->WriteRegister(i2c_address, register_address, data[i]);
+  if (i2c_port == nullptr) return -1;
+  for (int i = 0; i < length && register_address + i <= 0xff; i++) {
+    i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
   return 0;
 }
 int OnBoardComputer::I2cComponentReadRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address, unsigned char* data,
                                               const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (int i = 0; i < length; i++) {
-    data[i] = i2c_port->ReadRegister(register_address, i2c_address);
+    data[i] = (register_address + i <= 0xff) ? i2c_port->ReadRegister(i2c_address, register_address + i) : 0;
   }
   return 0;
 }
 int OnBoardComputer::I2cComponentReadCommand(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_ports_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->ReadCommand(i2c_address, data, length);
   return 0;
 }
diff --git a/src/components/real/cdh/on_board_computer_with_c2a.cpp b/src/components/real/cdh/on_board_computer_with_c2a.cpp
index 9e8ff6b..a52a009 100644
--- a/src/components/real/cdh/on_board_computer_with_c2a.cpp
+++ b/src/components/real/cdh/on_board_computer_with_c2a.cpp
@@ -156,17 +156,19 @@ int ObcWithC2a::I2cCloseComPort(int port_id) {
 
 int ObcWithC2a::I2cWriteCommand(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->WriteCommand(i2c_address, data, length);
   return 0;
 }
 
 int ObcWithC2a::I2cWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
 
   if (length == 1) {
     i2c_port->WriteRegister(i2c_address, data[0]);
   } else {
-    for (unsigned char i = 0; i < length - 1; i++) {
+    for (int i = 0; i < length - 1 && data[0] + i <= 0xff; i++) {
       i2c_port->WriteRegister(i2c_address, data[0] + i, data[i + 1]);
     }
   }
@@ -175,6 +177,7 @@ int ObcWithC2a::I2cWriteRegister(int port_id, const unsigned char i2c_address, c
 
 int ObcWithC2a::I2cReadRegister(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   for (int i = 0; i < length; i++) {
     data[i] = i2c_port->ReadRegister(i2c_address);
   }
@@ -184,7 +187,8 @@ int ObcWithC2a::I2cReadRegister(int port_id, const unsigned char i2c_address, un
 int ObcWithC2a::I2cComponentWriteRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address,
                                           const unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
-  for (unsigned char i = 0; i < length; i++) {
+  if (i2c_port == nullptr) return -1;
+  for (int i = 0; i < length && register_address + i <= 0xff; i++) {
     i2c_port->WriteRegister(i2c_address, register_address + i, data[i]);
   }
   return 0;
@@ -192,13 +196,15 @@ int ObcWithC2a::I2cComponentWriteRegister(int port_id, const unsigned char i2c_a
 int ObcWithC2a::I2cComponentReadRegister(int port_id, const unsigned char i2c_address, const unsigned char register_address, unsigned char* data,
                                          const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
-  for (unsigned char i = 0; i < length; i++) {
-    data[i] = i2c_port->ReadRegister(i2c_address, register_address + i);
+  if (i2c_port == nullptr) return -1;
+  for (int i = 0; i < length; i++) {
+    data[i] = (register_address + i <= 0xff) ? i2c_port->ReadRegister(i2c_address, register_address + i) : 0;
   }
   return 0;
 }
 int ObcWithC2a::I2cComponentReadCommand(int port_id, const unsigned char i2c_address, unsigned char* data, const unsigned char length) {
   I2cPort* i2c_port = i2c_com_ports_c2a_[port_id];
+  if (i2c_port == nullptr) return -1;
   i2c_port->ReadCommand(i2c_address, data, length);
   return 0;
 }
-- 
2.43.0


From 44a27c28a8333f3ea6e27ffb64d269a2b491e951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 008/138] fix: update the GPIO level before notifying the
 component, so that a component driving the line in its handler is not
 overridden

---
 src/components/ports/gpio_port.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/components/ports/gpio_port.cpp b/src/components/ports/gpio_port.cpp
index bf91c2f..0ccb617 100644
--- a/src/components/ports/gpio_port.cpp
+++ b/src/components/ports/gpio_port.cpp
@@ -15,13 +15,14 @@ GpioPort::GpioPort(const unsigned int port_id, IGPIOCompo* component) : kPortId(
 GpioPort::~GpioPort() {}
 
 int GpioPort::DigitalWrite(const bool is_high) {
-  if (high_low_state_ != is_high) {
+  const bool is_changed = (high_low_state_ != is_high);
+  high_low_state_ = is_high;
+  if (is_changed) {
     // Call interaction function when detecting the change of the HIGH/LOW state
     if (component_ != nullptr) {
       component_->GpioStateChanged(kPortId, is_high);
     }
   }
-  high_low_state_ = is_high;
   return 0;
 }
 
-- 
2.43.0


From 6e93393bfa6a1de447036327064af724673453a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 009/138] fix: do not read behind the end of a truncated or
 empty SLIP frame

---
 src/utilities/slip.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utilities/slip.cpp b/src/utilities/slip.cpp
index b1f0fbb..9f1b719 100644
--- a/src/utilities/slip.cpp
+++ b/src/utilities/slip.cpp
@@ -27,6 +27,10 @@ std::vector<uint8_t> decode_slip(const std::vector<uint8_t> in) {
   while (1) {
     fesc_itr = std::find(fesc_itr, out.end(), kSlipFesc_);
     if (fesc_itr == out.end()) break;
+    if (fesc_itr + 1 == out.end()) {  // truncated escape sequence
+      out.erase(fesc_itr);
+      break;
+    }
     // convert
     if (*(fesc_itr + 1) == kSlipTfend_) {
       *(fesc_itr + 1) = kSlipFend_;
@@ -43,6 +47,7 @@ std::vector<uint8_t> decode_slip(const std::vector<uint8_t> in) {
 }
 
 std::vector<uint8_t> decode_slip_with_header(const std::vector<uint8_t> in) {
+  if (in.empty()) return in;
   std::vector<uint8_t> in_without_header = in;
   in_without_header.erase(in_without_header.begin(), in_without_header.begin() + 1);
   return decode_slip(in_without_header);
-- 
2.43.0


From 930fc816560ac8aea65b726a997099fbc71f9787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 010/138] fix: endian_memcpy of zero bytes copies nothing

---
 src/utilities/endian.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/utilities/endian.cpp b/src/utilities/endian.cpp
index 6aa2111..8bb894f 100644
--- a/src/utilities/endian.cpp
+++ b/src/utilities/endian.cpp
@@ -15,9 +15,8 @@ void *endian_memcpy(void *dst, const void *src, size_t size) {
   uint8_t *dst_ = (uint8_t *)dst;
   size_t i;
 
-  if (size > 0) {
-    size--;
-  }
+  if (size == 0) return dst;
+  size--;
 
   for (i = 0; i <= size; i++) {
     *(dst_ + (size - i)) = *(src_ + i);
-- 
2.43.0


From 2fc0ea1de3e6b6cbdee4ff03b643a19332ba9306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 011/138] fix: do not take the front of an empty telemetry
 buffer

---
 src/components/base/uart_communication_with_obc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/base/uart_communication_with_obc.cpp b/src/components/base/uart_communication_with_obc.cpp
index ce9340d..50b9a34 100644
--- a/src/components/base/uart_communication_with_obc.cpp
+++ b/src/components/base/uart_communication_with_obc.cpp
@@ -169,10 +169,10 @@ int UartCommunicationWithObc::SendTelemetry(const unsigned int offset) {
 
   switch (simulation_mode_) {
     case SimulationMode::kSils:
-      obc_->SendFromCompo(sils_port_id_, &tx_buffer_.front(), offset, tlm_size);
+      obc_->SendFromCompo(sils_port_id_, tx_buffer_.data(), offset, tlm_size);
       return 0;
     case SimulationMode::kHils:
-      hils_port_manager_->UartSend(hils_port_id_, &tx_buffer_.front(), offset, tlm_size);
+      hils_port_manager_->UartSend(hils_port_id_, tx_buffer_.data(), offset, tlm_size);
       return 0;
     default:
       // NOT REACHED
-- 
2.43.0


From fe392fe26ffa0a9e609d1f662dbafb16de45ff7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 012/138] fix: skip blank, malformed and unknown commands of
 operation scripts instead of reading outside the line, sending command 0 or
 terminating

---
 .../wings_command_sender_to_c2a.cpp           | 33 ++++++++++++++-----
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/components/real/communication/wings_command_sender_to_c2a.cpp b/src/components/real/communication/wings_command_sender_to_c2a.cpp
index ae3989f..93f488c 100644
--- a/src/components/real/communication/wings_command_sender_to_c2a.cpp
+++ b/src/components/real/communication/wings_command_sender_to_c2a.cpp
@@ -7,8 +7,10 @@
 
 #include "wings_command_sender_to_c2a.hpp"
 
+#include <iostream>
 #include <regex>
 #include <setting_file_reader/initialize_file_access.hpp>
+#include <stdexcept>
 #include <utilities/macros.hpp>
 
 #ifdef USE_C2A
@@ -53,10 +55,18 @@ void WingsCommandSenderToC2a::ExecuteCommandLine(const std::string line) {
     tokens.push_back(token);
   }
 
+  if (tokens.empty()) return;  // blank line
+
   // Handle WINGS commands
   if (tokens[0].find("wait_sec") == 0) {
     // wait process
-    wait_s_ = std::stod(tokens[1]);
+    wait_s_ = 0;
+    if (tokens.size() < 2) return;
+    try {
+      wait_s_ = std::stod(tokens[1]);
+    } catch (const std::exception&) {
+      std::cerr << "WINGS Operation file: invalid wait_sec line is skipped: " << line << std::endl;
+    }
   } else if (tokens[0].find("check_value") == 0) {
     // TODO: Support check_value
     wait_s_ = 0;
@@ -65,7 +75,11 @@ void WingsCommandSenderToC2a::ExecuteCommandLine(const std::string line) {
     wait_s_ = 0;
   } else {
     wait_s_ = 0;
-    AnalyzeC2aCommand(tokens);
+    try {
+      AnalyzeC2aCommand(tokens);
+    } catch (const std::exception&) {
+      std::cerr << "WINGS Operation file: invalid command line is skipped: " << line << std::endl;
+    }
   }
 
   return;
@@ -77,7 +91,7 @@ void WingsCommandSenderToC2a::AnalyzeC2aCommand(const std::vector<std::string> t
   size_t first_underscore_position = tokens[0].find('_');
   if (first_underscore_position == std::string::npos) return;
   size_t first_dot_position = tokens[0].find('.');
-  if (first_underscore_position == std::string::npos) return;
+  if (first_dot_position == std::string::npos) return;
 
   std::string target_name = tokens[0].substr(0, first_underscore_position);
   // TODO check target?
@@ -87,7 +101,7 @@ void WingsCommandSenderToC2a::AnalyzeC2aCommand(const std::vector<std::string> t
   // Get command code
   s2e::setting_file_reader::C2aCommandInformation cmd_info = c2a_command_database_.GetCommandInformation(command_name);
   if (cmd_info.GetCommandName() == "Error") {
-    // TODO: error handling
+    throw std::invalid_argument("unknown command");
   }
   CMD_CODE cmd_id = (CMD_CODE)cmd_info.GetCommandId();
 
@@ -97,23 +111,26 @@ void WingsCommandSenderToC2a::AnalyzeC2aCommand(const std::vector<std::string> t
     if (tokens[i].find("{") == 0) return;  // let command is not supported now TODO: support let command
     arguments.push_back(tokens[i]);
   }
-  // Check number of arguments
-  if (arguments.size() != cmd_info.GetNumberOfArgument()) {
-    // TODO: error handling
-  }
 
   // Decode arguments
   // Read TI
   uint32_t ti = 0;
   if (command_type == "TL" || command_type == "BL") {
+    if (arguments.empty()) throw std::invalid_argument("no TI");
     ti = (uint32_t)std::stoi(arguments[0]);
     arguments.erase(arguments.begin());
   }
+
+  // Check number of arguments
+  if (arguments.size() != cmd_info.GetNumberOfArgument()) {
+    throw std::invalid_argument("wrong number of arguments");
+  }
   // Read arguments
   uint8_t param[CSP_MAX_LEN];
   uint16_t param_len = 0;
   for (size_t arg_num = 0; arg_num < arguments.size(); arg_num++) {
     size_t len = 0;
+    if (param_len + sizeof(uint64_t) > CSP_MAX_LEN) throw std::length_error("too long arguments");
     s2e::setting_file_reader::DecodeC2aCommandArgument(cmd_info.GetArgumentType(arg_num), arguments[arg_num], param + param_len, len);
     param_len += (uint16_t)len;
   }
-- 
2.43.0


From 9b6b5b4f5be47091a524dd2c4375384967cccfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:25 +0000
Subject: [PATCH 013/138] fix: skip malformed lines of the C2A command database
 instead of reading outside the line or terminating

---
 .../c2a_command_database.cpp                  | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/setting_file_reader/c2a_command_database.cpp b/src/setting_file_reader/c2a_command_database.cpp
index 7811b36..7cf001f 100644
--- a/src/setting_file_reader/c2a_command_database.cpp
+++ b/src/setting_file_reader/c2a_command_database.cpp
@@ -25,19 +25,27 @@ C2aCommandInformation::C2aCommandInformation(const std::string cmd_db_line) {
     tokens.push_back(token);
   }
 
+  if (tokens.size() < 5) return;
+
   // Command name
-  command_name_ = tokens[1];
-  if (command_name_.empty()) return;
+  if (tokens[1].empty()) return;
 
-  // Command ID
-  command_id_ = std::stoul(tokens[3], nullptr, 0);
+  try {
+    // Command ID
+    command_id_ = std::stoul(tokens[3], nullptr, 0);
 
-  // Arguments
-  number_of_arguments_ = std::stoul(tokens[4], nullptr, 0);
+    // Arguments
+    number_of_arguments_ = std::stoul(tokens[4], nullptr, 0);
+  } catch (const std::exception&) {
+    std::cerr << "C2A Command DB: invalid line is skipped: " << cmd_db_line << std::endl;
+    return;
+  }
   for (size_t arg_id = 0; arg_id < number_of_arguments_; arg_id++) {
+    if (5 + 2 * arg_id >= tokens.size()) return;
     std::string argment_type_name = tokens[5 + 2 * arg_id];
     argument_type_info_.push_back(ConvertArgumentType(argment_type_name));
   }
+  command_name_ = tokens[1];
 }
 
 C2aArgumentType C2aCommandInformation::GetArgumentType(const size_t argument_id) {
-- 
2.43.0


From 61a51595a9ec97c830ef777d8bb3c19ac3c8ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 014/138] fix: initialise charge current and voltage of a
 battery

---
 src/components/real/power/battery.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/components/real/power/battery.cpp b/src/components/real/power/battery.cpp
index 865c17b..36864bf 100644
--- a/src/components/real/power/battery.cpp
+++ b/src/components/real/power/battery.cpp
@@ -22,7 +22,10 @@ Battery::Battery(const int prescaler, environment::ClockGenerator* clock_generat
       cv_charge_voltage_V_(cv_charge_voltage_V),
       depth_of_discharge_percent_(initial_dod),
       battery_resistance_Ohm_(battery_resistance_Ohm),
-      compo_step_time_s_(component_step_time_s) {}
+      compo_step_time_s_(component_step_time_s) {
+  charge_current_A_ = 0.0;
+  UpdateBatVoltage();
+}
 
 Battery::Battery(environment::ClockGenerator* clock_generator, int number_of_series, int number_of_parallel, double cell_capacity_Ah,
                  const std::vector<double> cell_discharge_curve_coefficients, double initial_dod, double cc_charge_c_rate, double cv_charge_voltage_V,
@@ -36,7 +39,10 @@ Battery::Battery(environment::ClockGenerator* clock_generator, int number_of_ser
       cv_charge_voltage_V_(cv_charge_voltage_V),
       depth_of_discharge_percent_(initial_dod),
       battery_resistance_Ohm_(battery_resistance_Ohm),
-      compo_step_time_s_(0.1) {}
+      compo_step_time_s_(0.1) {
+  charge_current_A_ = 0.0;
+  UpdateBatVoltage();
+}
 
 Battery::Battery(const Battery& obj)
     : Component(obj),
-- 
2.43.0


From 9d59363ffc80dd3a74bb53817adf07573841ef81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 015/138] fix: keep the battery current a number when the load
 exceeds what the battery can supply

---
 src/components/real/power/pcu_initial_study.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/components/real/power/pcu_initial_study.cpp b/src/components/real/power/pcu_initial_study.cpp
index 3925522..415de4f 100644
--- a/src/components/real/power/pcu_initial_study.cpp
+++ b/src/components/real/power/pcu_initial_study.cpp
@@ -5,6 +5,7 @@
 
 #include "pcu_initial_study.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <components/real/power/csv_scenario_interface.hpp>
 #include <environment/global/clock_generator.hpp>
@@ -90,9 +91,9 @@ void PcuInitialStudy::UpdateChargeCurrentAndBusVoltage() {
   for (auto sap : saps_) {
     power_generation += sap->GetPowerGeneration_W();
   }
-  const double current_temp =
-      (-bat_voltage + std::sqrt(bat_voltage * bat_voltage + 4.0 * battery_resistance_Ohm * (power_generation - power_consumption_W_))) /
-      (2.0 * battery_resistance_Ohm);
+  // The battery can not supply more than its maximum power
+  const double discriminant = std::max(0.0, bat_voltage * bat_voltage + 4.0 * battery_resistance_Ohm * (power_generation - power_consumption_W_));
+  const double current_temp = (-bat_voltage + std::sqrt(discriminant)) / (2.0 * battery_resistance_Ohm);
   if (current_temp >= cc_charge_current_C) {
     if (bat_voltage + cc_charge_current_C * battery_resistance_Ohm < cv_charge_voltage_V) {
       // CC Charge
-- 
2.43.0


From f786a41bd4743421a480474e7a5ecdf2443f8676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 016/138] fix: do not step before the first entry of a CSV
 scenario

---
 src/components/real/power/csv_scenario_interface.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/power/csv_scenario_interface.cpp b/src/components/real/power/csv_scenario_interface.cpp
index 54ee31a..85f753a 100644
--- a/src/components/real/power/csv_scenario_interface.cpp
+++ b/src/components/real/power/csv_scenario_interface.cpp
@@ -89,8 +89,8 @@ void CsvScenarioInterface::StoreBuffer(const std::string buffer_name, const std:
 double CsvScenarioInterface::GetValueFromBuffer(const std::string buffer_name, const double time_query) {
   double output;
   auto itr = buffers_.at(buffer_name).upper_bound(time_query);
+  if (itr == buffers_.at(buffer_name).begin()) return 0;  // No data until the time
   itr--;
-  if (itr == buffers_.at(buffer_name).end()) return 0;
   output = itr->second;
   return output;
 }
-- 
2.43.0


From 5823a243437edca2ac2a3af2105500c3e0d8631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 017/138] Revert the change of the serial communication example

---
 .../examples/example_serial_communication_with_obc.cpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/examples/example_serial_communication_with_obc.cpp b/src/components/examples/example_serial_communication_with_obc.cpp
index 09ff6b7..3017ea9 100644
--- a/src/components/examples/example_serial_communication_with_obc.cpp
+++ b/src/components/examples/example_serial_communication_with_obc.cpp
@@ -45,7 +45,7 @@ int ExampleSerialCommunicationWithObc::GenerateTelemetry() {
     tx_buffer_[i] = (unsigned char)memory_[i];
   }
   tx_buffer_.assign(std::begin(tx_buffer_), std::end(tx_buffer_));
-  return kMaxMemoryLength;
+  return sizeof(tx_buffer_);
 }
 void ExampleSerialCommunicationWithObc::MainRoutine(const int time_count) {
   UNUSED(time_count);
-- 
2.43.0


From ed1b25cc830babaadc5d6b8e96c732c8c8abdd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 018/138] fix: give every spacecraft its own residual magnetic
 moment noise instead of sharing that of the first one in the process

---
 src/disturbances/magnetic_disturbance.cpp | 18 +++++++-----------
 src/disturbances/magnetic_disturbance.hpp |  4 ++++
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/disturbances/magnetic_disturbance.cpp b/src/disturbances/magnetic_disturbance.cpp
index ea00292..3213a96 100644
--- a/src/disturbances/magnetic_disturbance.cpp
+++ b/src/disturbances/magnetic_disturbance.cpp
@@ -10,13 +10,15 @@
 
 #include "../logger/log_utility.hpp"
 #include "../math_physics/randomization/global_randomization.hpp"
-#include "../math_physics/randomization/normal_randomization.hpp"
-#include "../math_physics/randomization/random_walk.hpp"
 
 namespace s2e::disturbances {
 
 MagneticDisturbance::MagneticDisturbance(const spacecraft::ResidualMagneticMoment& rmm_params, const bool is_calculation_enabled)
-    : Disturbance(is_calculation_enabled, true), residual_magnetic_moment_(rmm_params) {
+    : Disturbance(is_calculation_enabled, true),
+      residual_magnetic_moment_(rmm_params),
+      random_walk_(0.1, math::Vector<3>(rmm_params.GetRandomWalkStandardDeviation_Am2()),
+                   math::Vector<3>(rmm_params.GetRandomWalkLimit_Am2())),  // [FIXME] step width is constant
+      normal_random_(0.0, rmm_params.GetRandomNoiseStandardDeviation_Am2(), randomization::global_randomization.MakeSeed()) {
   rmm_b_Am2_ = residual_magnetic_moment_.GetConstantValue_b_Am2();
 }
 
@@ -33,17 +35,11 @@ void MagneticDisturbance::Update(const environment::LocalEnvironment& local_envi
 }
 
 void MagneticDisturbance::CalcRMM() {
-  static math::Vector<3> random_walk_std_dev(residual_magnetic_moment_.GetRandomWalkStandardDeviation_Am2());
-  static math::Vector<3> random_walk_limit(residual_magnetic_moment_.GetRandomWalkLimit_Am2());
-  static randomization::RandomWalk<3> random_walk(0.1, random_walk_std_dev, random_walk_limit);  // [FIXME] step width is constant
-  static randomization::NormalRand normal_random(0.0, residual_magnetic_moment_.GetRandomNoiseStandardDeviation_Am2(),
-                                                 randomization::global_randomization.MakeSeed());
-
   rmm_b_Am2_ = residual_magnetic_moment_.GetConstantValue_b_Am2();
   for (int i = 0; i < 3; ++i) {
-    rmm_b_Am2_[i] += random_walk[i] + normal_random;
+    rmm_b_Am2_[i] += random_walk_[i] + normal_random_;
   }
-  ++random_walk;  // Update random walk
+  ++random_walk_;  // Update random walk
 }
 
 std::string MagneticDisturbance::GetLogHeader() const {
diff --git a/src/disturbances/magnetic_disturbance.hpp b/src/disturbances/magnetic_disturbance.hpp
index f51b392..87f9527 100644
--- a/src/disturbances/magnetic_disturbance.hpp
+++ b/src/disturbances/magnetic_disturbance.hpp
@@ -10,6 +10,8 @@
 
 #include "../logger/loggable.hpp"
 #include "../math_physics/math/vector.hpp"
+#include "../math_physics/randomization/normal_randomization.hpp"
+#include "../math_physics/randomization/random_walk.hpp"
 #include "../simulation/spacecraft/structure/residual_magnetic_moment.hpp"
 #include "disturbance.hpp"
 
@@ -54,6 +56,8 @@ class MagneticDisturbance : public Disturbance {
 
   math::Vector<3> rmm_b_Am2_;                                           //!< True RMM of the spacecraft in the body frame [Am2]
   const spacecraft::ResidualMagneticMoment& residual_magnetic_moment_;  //!< RMM parameters
+  randomization::RandomWalk<3> random_walk_;                            //!< Random walk of the RMM
+  randomization::NormalRand normal_random_;                             //!< White noise of the RMM
 
   /**
    * @fn CalcRMM
-- 
2.43.0


From b124257b086a6169a40de3905dd8c71ffc95ac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 019/138] fix: give every spacecraft its own geomagnetic field
 noise instead of sharing that of the first one in the process

---
 src/environment/local/geomagnetic_field.cpp | 16 +++++-----------
 src/environment/local/geomagnetic_field.hpp |  4 ++++
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/environment/local/geomagnetic_field.cpp b/src/environment/local/geomagnetic_field.cpp
index 8fff876..b2d6d7c 100644
--- a/src/environment/local/geomagnetic_field.cpp
+++ b/src/environment/local/geomagnetic_field.cpp
@@ -7,8 +7,6 @@
 
 #include "math_physics/geomagnetic/igrf.h"
 #include "math_physics/randomization/global_randomization.hpp"
-#include "math_physics/randomization/normal_randomization.hpp"
-#include "math_physics/randomization/random_walk.hpp"
 #include "setting_file_reader/initialize_file_access.hpp"
 
 namespace s2e::environment {
@@ -20,7 +18,9 @@ GeomagneticField::GeomagneticField(const std::string igrf_file_name, const doubl
       random_walk_standard_deviation_nT_(random_walk_srandard_deviation_nT),
       random_walk_limit_nT_(random_walk_limit_nT),
       white_noise_standard_deviation_nT_(white_noise_standard_deviation_nT),
-      igrf_file_name_(igrf_file_name) {
+      igrf_file_name_(igrf_file_name),
+      random_walk_(0.1, math::Vector<3>(random_walk_srandard_deviation_nT), math::Vector<3>(random_walk_limit_nT)),
+      white_noise_(0.0, white_noise_standard_deviation_nT, randomization::global_randomization.MakeSeed()) {
   set_file_path(igrf_file_name_.c_str());
 }
 
@@ -42,16 +42,10 @@ void GeomagneticField::CalcMagneticField(const double decimal_year, const double
 }
 
 void GeomagneticField::AddNoise(double* magnetic_field_array_i_nT) {
-  static math::Vector<3> standard_deviation(random_walk_standard_deviation_nT_);
-  static math::Vector<3> limit(random_walk_limit_nT_);
-  static randomization::RandomWalk<3> random_walk(0.1, standard_deviation, limit);
-
-  static randomization::NormalRand white_noise(0.0, white_noise_standard_deviation_nT_, randomization::global_randomization.MakeSeed());
-
   for (int i = 0; i < 3; ++i) {
-    magnetic_field_array_i_nT[i] += random_walk[i] + white_noise;
+    magnetic_field_array_i_nT[i] += random_walk_[i] + white_noise_;
   }
-  ++random_walk;  // Update random walk
+  ++random_walk_;  // Update random walk
 }
 
 std::string GeomagneticField::GetLogHeader() const {
diff --git a/src/environment/local/geomagnetic_field.hpp b/src/environment/local/geomagnetic_field.hpp
index 1f38c03..5f99294 100644
--- a/src/environment/local/geomagnetic_field.hpp
+++ b/src/environment/local/geomagnetic_field.hpp
@@ -10,6 +10,8 @@
 #include "math_physics/geodesy/geodetic_position.hpp"
 #include "math_physics/math/quaternion.hpp"
 #include "math_physics/math/vector.hpp"
+#include "math_physics/randomization/normal_randomization.hpp"
+#include "math_physics/randomization/random_walk.hpp"
 
 namespace s2e::environment {
 
@@ -78,6 +80,8 @@ class GeomagneticField : public logger::ILoggable {
   double random_walk_limit_nT_;               //!< Limit of Random Walk [nT]
   double white_noise_standard_deviation_nT_;  //!< Standard deviation of white noise [nT]
   std::string igrf_file_name_;                //!< Path to the initialize file
+  randomization::RandomWalk<3> random_walk_;  //!< Random walk noise
+  randomization::NormalRand white_noise_;     //!< White noise
 
   /**
    * @fn AddNoise
-- 
2.43.0


From c81e7c2f56af5d20c833f8676b227fbdf08bb469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 020/138] fix: derive the initial jitter phase of a reaction
 wheel from the simulation seed instead of operating system entropy

---
 src/components/real/aocs/reaction_wheel_jitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/reaction_wheel_jitter.cpp b/src/components/real/aocs/reaction_wheel_jitter.cpp
index c7edc49..b1135bc 100644
--- a/src/components/real/aocs/reaction_wheel_jitter.cpp
+++ b/src/components/real/aocs/reaction_wheel_jitter.cpp
@@ -6,6 +6,7 @@
 #include "reaction_wheel_jitter.hpp"
 
 #include <math_physics/math/constants.hpp>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <random>
 #include <utilities/macros.hpp>
 
@@ -26,8 +27,7 @@ ReactionWheelJitter::ReactionWheelJitter(std::vector<std::vector<double>> radial
       considers_structural_resonance_(considers_structural_resonance) {
   UNUSED(structural_resonance_frequency_Hz_);  // TODO: implement algorithm to use this variable
   // Generate random number for initial rotation phase
-  std::random_device seed_gen;
-  std::default_random_engine engine(seed_gen());
+  std::default_random_engine engine(static_cast<std::default_random_engine::result_type>(randomization::global_randomization.MakeSeed()));
   std::uniform_real_distribution<double> dist(0.0, math::tau);
   // Initialize RW rotation phase
   for (size_t i = 0; i < radial_force_harmonics_coefficients_.size(); i++) {
-- 
2.43.0


From 92b204b50a701a63886da23fba1bf20231017226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:38 +0000
Subject: [PATCH 021/138] fix: give every reaction wheel its own jitter state

---
 src/components/real/aocs/reaction_wheel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.hpp b/src/components/real/aocs/reaction_wheel.hpp
index 39965a6..39aa76a 100644
--- a/src/components/real/aocs/reaction_wheel.hpp
+++ b/src/components/real/aocs/reaction_wheel.hpp
@@ -209,7 +209,7 @@ class ReactionWheel : public Component, public logger::ILoggable {
   ReactionWheelOde ode_angular_velocity_;  //!< Reaction Wheel OrdinaryDifferentialEquation
 
   // RW jitter
-  ReactionWheelJitter& rw_jitter_;     //!< RW jitter
+  ReactionWheelJitter rw_jitter_;      //!< RW jitter
   bool is_calculated_jitter_ = false;  //!< Flag for calculation of jitter
   bool is_logged_jitter_ = false;      //!< Flag for log output of jitter
 
-- 
2.43.0


From 31d538e4439c3e02d8c6d9cf03b04773d9464d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 022/138] fix: seed the errors of the simple thruster from the
 simulation seed instead of a process-wide or fixed sequence

---
 src/components/real/propulsion/simple_thruster.cpp | 13 ++++---------
 src/components/real/propulsion/simple_thruster.hpp |  1 +
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/components/real/propulsion/simple_thruster.cpp b/src/components/real/propulsion/simple_thruster.cpp
index 0a63653..e2f502f 100644
--- a/src/components/real/propulsion/simple_thruster.cpp
+++ b/src/components/real/propulsion/simple_thruster.cpp
@@ -55,8 +55,9 @@ SimpleThruster::SimpleThruster(const int prescaler, environment::ClockGenerator*
 SimpleThruster::~SimpleThruster() {}
 
 void SimpleThruster::Initialize(const double magnitude_standard_deviation_N, const double direction_standard_deviation_rad) {
-  magnitude_random_noise_.SetParameters(0.0, magnitude_standard_deviation_N);
-  direction_random_noise_.SetParameters(0.0, direction_standard_deviation_rad);
+  magnitude_random_noise_.SetParameters(0.0, magnitude_standard_deviation_N, randomization::global_randomization.MakeSeed());
+  direction_random_noise_.SetParameters(0.0, direction_standard_deviation_rad, randomization::global_randomization.MakeSeed());
+  direction_axis_randomizer_.InitSeed(randomization::global_randomization.MakeSeed());
   thrust_direction_b_ = thrust_direction_b_.CalcNormalizedVector();
 }
 
@@ -129,13 +130,7 @@ math::Vector<3> SimpleThruster::CalcThrustDirection() {
     ex[0] = 1.0;
     ex[1] = 0.0;
     ex[2] = 0.0;
-    int flag = rand() % 2;
-    double make_axis_rot_rad;
-    if (flag == 0) {
-      make_axis_rot_rad = math::pi * (double)rand() / RAND_MAX;
-    } else {
-      make_axis_rot_rad = -math::pi * (double)rand() / RAND_MAX;
-    }
+    double make_axis_rot_rad = math::pi * (2.0 * (double)direction_axis_randomizer_ - 1.0);
 
     math::Quaternion make_axis_rot(thrust_dir_b_true, make_axis_rot_rad);
     math::Vector<3> axis_rot = make_axis_rot.FrameConversion(ex);
diff --git a/src/components/real/propulsion/simple_thruster.hpp b/src/components/real/propulsion/simple_thruster.hpp
index c852650..c46efa8 100644
--- a/src/components/real/propulsion/simple_thruster.hpp
+++ b/src/components/real/propulsion/simple_thruster.hpp
@@ -126,6 +126,7 @@ class SimpleThruster : public Component, public logger::ILoggable {
   double direction_noise_standard_deviation_rad_ = 0.0;  //!< Standard deviation of thrust direction error [rad]
   randomization::NormalRand magnitude_random_noise_;     //!< Normal random for thrust magnitude error
   randomization::NormalRand direction_random_noise_;     //!< Normal random for thrust direction error
+  randomization::MinimalStandardLcgWithShuffle direction_axis_randomizer_;  //!< Uniform random for axis of thrust direction error
   // Delay parameters
   const double dead_time_s_;                       //!< Dead time [s]
   const double step_width_s_;                      //!< Step width for simulation [s]
-- 
2.43.0


From 7b03f7f94a171d09f77e2fc296c918c03b5ccb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:02 +0000
Subject: [PATCH 023/138] fix: seed the random noise of sun sensors and
 magnetorquers so that it follows the simulation seed and differs between
 units

---
 src/components/real/aocs/magnetorquer.cpp | 4 ++--
 src/components/real/aocs/sun_sensor.cpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/components/real/aocs/magnetorquer.cpp b/src/components/real/aocs/magnetorquer.cpp
index 0ee096e..bda5f1b 100644
--- a/src/components/real/aocs/magnetorquer.cpp
+++ b/src/components/real/aocs/magnetorquer.cpp
@@ -32,7 +32,7 @@ Magnetorquer::Magnetorquer(const int prescaler, environment::ClockGenerator* clo
       random_walk_c_Am2_(random_walk_step_width_s, random_walk_standard_deviation_c_Am2, random_walk_limit_c_Am2),
       geomagnetic_field_(geomagnetic_field) {
   for (size_t i = 0; i < kMtqDimension; i++) {
-    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i]);  // global_randomization.MakeSeed()
+    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i], randomization::global_randomization.MakeSeed());
   }
 }
 
@@ -55,7 +55,7 @@ Magnetorquer::Magnetorquer(const int prescaler, environment::ClockGenerator* clo
       random_walk_c_Am2_(random_walk_step_width_s, random_walk_standard_deviation_c_Am2, random_walk_limit_c_Am2),
       geomagnetic_field_(geomagnetic_field) {
   for (size_t i = 0; i < kMtqDimension; i++) {
-    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i]);  // global_randomization.MakeSeed()
+    random_noise_c_Am2_[i].SetParameters(0.0, normal_random_standard_deviation_c_Am2[i], randomization::global_randomization.MakeSeed());
   }
 }
 
diff --git a/src/components/real/aocs/sun_sensor.cpp b/src/components/real/aocs/sun_sensor.cpp
index 3745d99..ed2dcd9 100644
--- a/src/components/real/aocs/sun_sensor.cpp
+++ b/src/components/real/aocs/sun_sensor.cpp
@@ -52,8 +52,8 @@ void SunSensor::Initialize(const double random_noise_standard_deviation_rad, con
   bias_noise_beta_rad_ += nr;
 
   // Normal Random
-  random_noise_alpha_.SetParameters(0.0, random_noise_standard_deviation_rad);  // global_randomization.MakeSeed()
-  random_noise_beta_.SetParameters(0.0, random_noise_standard_deviation_rad);   // global_randomization.MakeSeed()
+  random_noise_alpha_.SetParameters(0.0, random_noise_standard_deviation_rad, randomization::global_randomization.MakeSeed());
+  random_noise_beta_.SetParameters(0.0, random_noise_standard_deviation_rad, randomization::global_randomization.MakeSeed());
 }
 void SunSensor::MainRoutine(const int time_count) {
   UNUSED(time_count);
-- 
2.43.0


From da60d2ee35000687e763837312b5c586a73cd1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 024/138] fix: release the temporary attitude of the controlled
 initialisation, so that a second Monte-Carlo case can be built in the process

---
 src/dynamics/attitude/initialize_attitude.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamics/attitude/initialize_attitude.cpp b/src/dynamics/attitude/initialize_attitude.cpp
index 2119bae..f882dd4 100644
--- a/src/dynamics/attitude/initialize_attitude.cpp
+++ b/src/dynamics/attitude/initialize_attitude.cpp
@@ -48,6 +48,7 @@ Attitude* InitAttitude(std::string file_name, const orbit::Orbit* orbit, const e
                                                      inertia_tensor_kgm2, target_position, local_celestial_information, orbit, mc_name_temp);
     attitude_temp->Propagate(step_width_s);
     quaternion_i2b = attitude_temp->GetQuaternion_i2b();
+    delete attitude_temp;
     omega_b = math::Vector<3>(0.0);
     torque_b = math::Vector<3>(0.0);
   } else {
-- 
2.43.0


From a07c7b81668afe98181cc80624f473e42dded619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 025/138] fix: read the altitude of the ground target from the
 key used in the settings files

---
 src/dynamics/attitude/initialize_attitude.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/attitude/initialize_attitude.cpp b/src/dynamics/attitude/initialize_attitude.cpp
index f882dd4..ca75dae 100644
--- a/src/dynamics/attitude/initialize_attitude.cpp
+++ b/src/dynamics/attitude/initialize_attitude.cpp
@@ -41,7 +41,7 @@ Attitude* InitAttitude(std::string file_name, const orbit::Orbit* orbit, const e
     double latitude_deg, longitude_deg, altitude_m;
     latitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_latitude_deg");
     longitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_longitude_deg");
-    altitude_m = ini_file_ca.ReadDouble(section_ca_, "altitude_m");
+    altitude_m = ini_file_ca.ReadDouble(section_ca_, "target_position_altitude_m");
     geodesy::GeodeticPosition target_position(latitude_deg * math::deg_to_rad, longitude_deg * math::deg_to_rad, altitude_m);
 
     Attitude* attitude_temp = new ControlledAttitude(main_mode, sub_mode, quaternion_i2b, main_target_direction_b, sub_target_direction_b,
@@ -97,7 +97,7 @@ Attitude* InitAttitude(std::string file_name, const orbit::Orbit* orbit, const e
     double latitude_deg, longitude_deg, altitude_m;
     latitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_latitude_deg");
     longitude_deg = ini_file_ca.ReadDouble(section_ca_, "target_position_longitude_deg");
-    altitude_m = ini_file_ca.ReadDouble(section_ca_, "altitude_m");
+    altitude_m = ini_file_ca.ReadDouble(section_ca_, "target_position_altitude_m");
     geodesy::GeodeticPosition target_position(latitude_deg * math::deg_to_rad, longitude_deg * math::deg_to_rad, altitude_m);
 
     attitude = new ControlledAttitude(main_mode, sub_mode, quaternion_i2b, main_target_direction_b, sub_target_direction_b, inertia_tensor_kgm2,
-- 
2.43.0


From f59d0548a464af6cfd031656c6db40ca732bf302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:18 +0000
Subject: [PATCH 026/138] fix: forget the cached normal random number when the
 Monte-Carlo seed is set

---
 .../initialize_monte_carlo_parameters.cpp                     | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
index 967b92b..17abae0 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
@@ -36,6 +36,10 @@ void InitializedMonteCarloParameters::SetSeed(unsigned long seed, bool is_determ
   } else {
     InitializedMonteCarloParameters::mt_.seed(InitializedMonteCarloParameters::randomizer_());
   }
+  // Discard the second value of a pair drawn before the seed was set
+  if (InitializedMonteCarloParameters::normal_distribution_ != nullptr) {
+    InitializedMonteCarloParameters::normal_distribution_->reset();
+  }
 }
 
 void InitializedMonteCarloParameters::GetRandomizedScalar(double& destination) const {
-- 
2.43.0


From 97ee0815ef2f4c451682f89e035a9d1b5977adff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:44 +0000
Subject: [PATCH 027/138] fix: accept geomagnetic coefficient file paths of any
 length instead of writing behind a fixed buffer

---
 src/math_physics/geomagnetic/igrf.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/math_physics/geomagnetic/igrf.cpp b/src/math_physics/geomagnetic/igrf.cpp
index 939625b..0975c38 100644
--- a/src/math_physics/geomagnetic/igrf.cpp
+++ b/src/math_physics/geomagnetic/igrf.cpp
@@ -46,6 +46,7 @@
 
 #include <cstdlib>
 #include <iostream>
+#include <string>
 using namespace std;
 
 #include "../../math_physics/orbit/sgp4/sgp4ext.h"
@@ -83,11 +84,11 @@ static double rar[MxOD + 1], csp[MxOD + 1], snp[MxOD + 1], p[MxOD + 2][MxOD + 1]
 static double vgh[MxOD + 1][MxOD + 1], vght[MxOD + 1][MxOD + 1];
 
 // coeff file path
-static char coeff_file[256];
+static std::string coeff_file;
 
 static void fcalc(void);
 
-void set_file_path(const char *fname) { strcpy(coeff_file, fname); }
+void set_file_path(const char *fname) { coeff_file = fname; }
 
 static void fcalc(void) /* This is an internal function */
 {
@@ -329,20 +330,20 @@ void gigrf(int gen, double year) {
   //  char path[] = "../../SatAttSim/src/external_libraries/igrf/igrf13.coef"; //from 2020
   //  char file[] = "../../SatAttSim/src/external_libraries/igrf/igrf13.coef"; //from 2020
 
-  char file[256];
+  string file = coeff_file;
+  size_t generation_position;
 
-  char *pstr, *line, buf[LLINE];
+  char *line, buf[LLINE];
   FILE *fp;
   if ((gen < 1) || (MxGEN < gen)) {
     fprintf(stderr, "gigrf: unknown  NGEN = %d\n", gen);
     exit(1);
   }
-  strcpy(file, coeff_file);
   // strstr(const char *s1, const char *s2)=>文字列s1から文字列s2を検索
   // if ((pstr=strstr(file,"10")) == NULL)
   // if ((pstr = strstr(file, "11")) == NULL)
   // if ((pstr = strstr(file, "12")) == NULL)
-  if ((pstr = strstr(file, "13")) == NULL) {
+  if ((generation_position = file.find("13")) == string::npos) {
     fprintf(stderr, "gigrf: filename invalid\n");
     exit(1);
   }
@@ -350,8 +351,8 @@ void gigrf(int gen, double year) {
   // )=printf関数と同様の変換を行った出力を、文字列strに格納 char *strncpy(char
   // *s1, const char *s2, size_t n);= *s1 に文字列 *s2 を先頭から n 文字コピー
   snprintf(buf, LLINE, "%02d", gen);
-  strncpy(pstr, buf, 2);
-  if ((fp = fopen(file, "r")) == NULL) {
+  file.replace(generation_position, 2, buf);
+  if ((fp = fopen(file.c_str(), "r")) == NULL) {
     fprintf(stderr, "gigrf: file not found\n");
     exit(1);
   }
-- 
2.43.0


From 060de170f54eccb26013f8a3a8bb35b703a2286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:26 +0000
Subject: [PATCH 028/138] fix: reload the geomagnetic coefficients when the
 file or the epoch changes, so that cases and spacecraft do not use those of
 the first one in the process

---
 src/environment/local/geomagnetic_field.cpp |  1 +
 src/math_physics/geomagnetic/igrf.cpp       | 13 +++++++++----
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/environment/local/geomagnetic_field.cpp b/src/environment/local/geomagnetic_field.cpp
index b2d6d7c..80c1749 100644
--- a/src/environment/local/geomagnetic_field.cpp
+++ b/src/environment/local/geomagnetic_field.cpp
@@ -33,6 +33,7 @@ void GeomagneticField::CalcMagneticField(const double decimal_year, const double
   const double alt_m = position.GetAltitude_m();
 
   double magnetic_field_array_i_nT[3];
+  set_file_path(igrf_file_name_.c_str());
   IgrfCalc(decimal_year, lat_rad, lon_rad, alt_m, sidereal_day, magnetic_field_array_i_nT);
   AddNoise(magnetic_field_array_i_nT);
   for (int i = 0; i < 3; ++i) {
diff --git a/src/math_physics/geomagnetic/igrf.cpp b/src/math_physics/geomagnetic/igrf.cpp
index 0975c38..32535af 100644
--- a/src/math_physics/geomagnetic/igrf.cpp
+++ b/src/math_physics/geomagnetic/igrf.cpp
@@ -86,6 +86,10 @@ static double vgh[MxOD + 1][MxOD + 1], vght[MxOD + 1][MxOD + 1];
 // coeff file path
 static std::string coeff_file;
 
+// coeff file and span of years of the coefficients in use
+static std::string loaded_file;
+static double loaded_from, loaded_until;
+
 static void fcalc(void);
 
 void set_file_path(const char *fname) { coeff_file = fname; }
@@ -418,6 +422,10 @@ void gigrf(int gen, double year) {
       exit(1);
     }
   }
+  fclose(fp);
+  loaded_file = coeff_file;
+  loaded_from = (l == 2) ? -HUGE_VAL : (l == ncol) ? yr2 : yr1;
+  loaded_until = (l == ncol) ? HUGE_VAL : yr2;
   if (l == ncol)
     tzero = yr2;
   else {
@@ -467,14 +475,11 @@ int TransMagaxisToECI(const double *mag, double *pos, double lonrad, double thet
 // IGRFの計算を実行するメインルーチン
 // Output	:	mag[3]	ECI座標での磁界の値[nT]
 void IgrfCalc(double decyear, double latrad, double lonrad, double alt, double side, double *mag) {
-  static bool first_flg = true;
-
-  if (first_flg == true) {
+  if (loaded_file.empty() || loaded_file != coeff_file || decyear < loaded_from || loaded_until <= decyear) {
     // gigrf(10,decyear);	//ファイル読み込み
     // gigrf(11, decyear);
     // gigrf(12, decyear);
     gigrf(13, decyear);
-    first_flg = false;
   }
   tyear(decyear);  // 実行年の設定
   igrfc(latrad * RAD2DEG, lonrad * RAD2DEG, alt,
-- 
2.43.0


From 0c3c01cf4b430f1c70d32f2b0b7d088bc3178593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:36 +0000
Subject: [PATCH 029/138] fix: an unpowered reaction wheel no longer keeps
 applying its last torque

---
 src/components/real/aocs/reaction_wheel.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index 9cdbac4..11b48c1 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -92,7 +92,12 @@ void ReactionWheel::MainRoutine(const int time_count) {
   CalcTorque();
 }
 
-void ReactionWheel::PowerOffRoutine() { drive_flag_ = 0; }
+void ReactionWheel::PowerOffRoutine() {
+  drive_flag_ = 0;
+  std::fill(acceleration_delay_buffer_.begin(), acceleration_delay_buffer_.end(), 0.0);
+  generated_angular_acceleration_rad_s2_ = 0.0;
+  output_torque_b_Nm_ *= 0.0;
+}
 
 // Jitter calculation
 void ReactionWheel::FastUpdate() {
-- 
2.43.0


From fb4689a6cbcf67591c063daee125a53d129b5cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 030/138] fix: seed the noise of attitude observer, force and
 torque generators from the simulation seed

---
 src/components/ideal/attitude_observer.cpp | 7 +++++--
 src/components/ideal/force_generator.cpp   | 5 +++--
 src/components/ideal/torque_generator.cpp  | 5 +++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/components/ideal/attitude_observer.cpp b/src/components/ideal/attitude_observer.cpp
index a77c1b4..dcbcd53 100644
--- a/src/components/ideal/attitude_observer.cpp
+++ b/src/components/ideal/attitude_observer.cpp
@@ -6,14 +6,17 @@
 #include "attitude_observer.hpp"
 
 #include <math_physics/math/constants.hpp>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
 namespace s2e::components {
 
 AttitudeObserver::AttitudeObserver(const int prescaler, environment::ClockGenerator* clock_generator, const double standard_deviation_rad,
                                    const dynamics::attitude::Attitude& attitude)
-    : Component(prescaler, clock_generator), angle_noise_(0.0, standard_deviation_rad), attitude_(attitude) {
-  direction_noise_.SetParameters(0.0, 1.0);
+    : Component(prescaler, clock_generator),
+      angle_noise_(0.0, standard_deviation_rad, randomization::global_randomization.MakeSeed()),
+      attitude_(attitude) {
+  direction_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
 }
 
 void AttitudeObserver::MainRoutine(const int time_count) {
diff --git a/src/components/ideal/force_generator.cpp b/src/components/ideal/force_generator.cpp
index 2104ad4..ae0b1c7 100644
--- a/src/components/ideal/force_generator.cpp
+++ b/src/components/ideal/force_generator.cpp
@@ -6,6 +6,7 @@
 #include "force_generator.hpp"
 
 #include <cfloat>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
 namespace s2e::components {
@@ -14,10 +15,10 @@ namespace s2e::components {
 ForceGenerator::ForceGenerator(const int prescaler, environment::ClockGenerator* clock_generator, const double magnitude_error_standard_deviation_N,
                                const double direction_error_standard_deviation_rad, const dynamics::Dynamics* dynamics)
     : Component(prescaler, clock_generator),
-      magnitude_noise_(0.0, magnitude_error_standard_deviation_N),
+      magnitude_noise_(0.0, magnitude_error_standard_deviation_N, randomization::global_randomization.MakeSeed()),
       direction_error_standard_deviation_rad_(direction_error_standard_deviation_rad),
       dynamics_(dynamics) {
-  direction_noise_.SetParameters(0.0, 1.0);
+  direction_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
 }
 
 ForceGenerator::~ForceGenerator() {}
diff --git a/src/components/ideal/torque_generator.cpp b/src/components/ideal/torque_generator.cpp
index c64478b..fd0a0a3 100644
--- a/src/components/ideal/torque_generator.cpp
+++ b/src/components/ideal/torque_generator.cpp
@@ -6,6 +6,7 @@
 #include "torque_generator.hpp"
 
 #include <cfloat>
+#include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
 
 namespace s2e::components {
@@ -15,10 +16,10 @@ TorqueGenerator::TorqueGenerator(const int prescaler, environment::ClockGenerato
                                  const double magnitude_error_standard_deviation_Nm, const double direction_error_standard_deviation_rad,
                                  const dynamics::Dynamics* dynamics)
     : Component(prescaler, clock_generator),
-      magnitude_noise_(0.0, magnitude_error_standard_deviation_Nm),
+      magnitude_noise_(0.0, magnitude_error_standard_deviation_Nm, randomization::global_randomization.MakeSeed()),
       direction_error_standard_deviation_rad_(direction_error_standard_deviation_rad),
       dynamics_(dynamics) {
-  direction_noise_.SetParameters(0.0, 1.0);
+  direction_noise_.SetParameters(0.0, 1.0, randomization::global_randomization.MakeSeed());
 }
 
 TorqueGenerator::~TorqueGenerator() {}
-- 
2.43.0


From b48768d0ef76cc5cd1365fb1c7470dc601cfd572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 031/138] fix: initialise the orbit acceleration instead of
 scaling uninitialised memory to zero

---
 src/dynamics/orbit/orbit.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/orbit/orbit.hpp b/src/dynamics/orbit/orbit.hpp
index c51f0dc..ed5b9d8 100644
--- a/src/dynamics/orbit/orbit.hpp
+++ b/src/dynamics/orbit/orbit.hpp
@@ -202,8 +202,8 @@ class Orbit : public logger::ILoggable {
   math::Vector<3> spacecraft_velocity_b_m_s_;     //!< Spacecraft velocity in the body frame [m/s]
   math::Vector<3> spacecraft_velocity_ecef_m_s_;  //!< Spacecraft velocity in the ECEF frame [m/s]
 
-  math::Vector<3> spacecraft_acceleration_i_m_s2_;  //!< Spacecraft acceleration in the inertial frame [m/s2]
-                                                    //!< NOTE: Clear to zero at the end of the Propagate function
+  math::Vector<3> spacecraft_acceleration_i_m_s2_{0.0};  //!< Spacecraft acceleration in the inertial frame [m/s2]
+                                                         //!< NOTE: Clear to zero at the end of the Propagate function
 
   // Frame Conversion TODO: consider other planet
   /**
-- 
2.43.0


From 084b218a614d6536f974357da8e02088340b300c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 032/138] fix: choose the right quadrant of the RAAN when
 orbital elements are made from position and velocity

---
 src/math_physics/orbit/orbital_elements.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/orbit/orbital_elements.cpp b/src/math_physics/orbit/orbital_elements.cpp
index d02a324..33bab84 100644
--- a/src/math_physics/orbit/orbital_elements.cpp
+++ b/src/math_physics/orbit/orbital_elements.cpp
@@ -54,7 +54,7 @@ void OrbitalElements::CalcOeFromPosVel(const double gravity_constant_m3_s2, cons
     // We cannot define raan when i = 0
     raan_rad_ = 0.0;
   } else {
-    raan_rad_ = asin(h[0] / sqrt(h[0] * h[0] + h[1] * h[1]));
+    raan_rad_ = atan2(h[0], -h[1]);
   }
   // position in plane
   double x_p_m = position_i_m[0] * cos(raan_rad_) + position_i_m[1] * sin(raan_rad_);
-- 
2.43.0


From 3935a0e07695063e75b9fd979219631832cfd85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 033/138] fix: start the Newton iteration of the Kepler
 equation consistently so that it converges

---
 src/math_physics/orbit/kepler_orbit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/orbit/kepler_orbit.cpp b/src/math_physics/orbit/kepler_orbit.cpp
index 2f49fd5..929472a 100644
--- a/src/math_physics/orbit/kepler_orbit.cpp
+++ b/src/math_physics/orbit/kepler_orbit.cpp
@@ -87,7 +87,7 @@ double KeplerOrbit::SolveKeplerFirstOrder(const double eccentricity, const doubl
 double KeplerOrbit::SolveKeplerNewtonMethod(const double eccentricity, const double mean_anomaly_rad, const double angle_limit_rad,
                                             const int iteration_limit) {
   double u_prev_rad = mean_anomaly_rad;
-  double u_rad = 0.0;
+  double u_rad = mean_anomaly_rad;
 
   for (int i = 0; i < iteration_limit; i++) {
     u_rad -= (u_prev_rad - eccentricity * sin(u_prev_rad) - mean_anomaly_rad) / (1.0 - eccentricity * cos(u_prev_rad));
-- 
2.43.0


From 2b67d24e310917c779130b24c8ed62d7ae7e2ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:59 +0000
Subject: [PATCH 034/138] fix: draw uniformly distributed Monte-Carlo
 quaternions instead of doubling the drawn angle

---
 .../initialize_monte_carlo_parameters.cpp                      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
index 17abae0..5d96cc4 100644
--- a/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
+++ b/src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp
@@ -265,7 +265,8 @@ void InitializedMonteCarloParameters::CalcQuaternionUniform(math::Quaternion& de
   for (int i = 0; i < 3; i++) {
     first_cnv[i] = op[i];
   }
-  first_cnv[3] = cos_angle_between;
+  first_cnv[3] = 1.0 + cos_angle_between;
+  first_cnv.Normalize();
 
   // Generate randomized rotation angle around the X-axis
   double rotation_angle = InitializedMonteCarloParameters::Generate1dUniform(0.0, math::tau);
-- 
2.43.0


From a56c2215d76462f0264894deea63c08a713cd85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:12 +0000
Subject: [PATCH 035/138] fix: removing a spacecraft from the relative
 information no longer aborts the simulation of the others

---
 .../relative_information.cpp                  | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/simulation/multiple_spacecraft/relative_information.cpp b/src/simulation/multiple_spacecraft/relative_information.cpp
index 3aed97e..dea66ec 100644
--- a/src/simulation/multiple_spacecraft/relative_information.cpp
+++ b/src/simulation/multiple_spacecraft/relative_information.cpp
@@ -12,8 +12,10 @@ RelativeInformation::RelativeInformation() {}
 RelativeInformation::~RelativeInformation() {}
 
 void RelativeInformation::Update() {
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
-    for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < dynamics_database_.size(); reference_spacecraft_id++) {
+  for (const auto& target : dynamics_database_) {
+    const size_t target_spacecraft_id = target.first;
+    for (const auto& reference : dynamics_database_) {
+      const size_t reference_spacecraft_id = reference.first;
       // Position
       math::Vector<3> target_sat_pos_i = dynamics_database_.at(target_spacecraft_id)->GetOrbit().GetPosition_i_m();
       math::Vector<3> reference_sat_pos_i = dynamics_database_.at(reference_spacecraft_id)->GetOrbit().GetPosition_i_m();
@@ -51,28 +53,28 @@ void RelativeInformation::RemoveDynamicsInfo(const size_t spacecraft_id) {
 
 std::string RelativeInformation::GetLogHeader() const {
   std::string str_tmp = "";
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
+  for (size_t target_spacecraft_id = 0; target_spacecraft_id < relative_distance_list_m_.size(); target_spacecraft_id++) {
     for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
       str_tmp += logger::WriteVector(
           "satellite" + std::to_string(target_spacecraft_id) + "_position_from_satellite" + std::to_string(reference_spacecraft_id), "i", "m", 3);
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
+  for (size_t target_spacecraft_id = 0; target_spacecraft_id < relative_distance_list_m_.size(); target_spacecraft_id++) {
     for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
       str_tmp += logger::WriteVector(
           "satellite" + std::to_string(target_spacecraft_id) + "_velocity_from_satellite" + std::to_string(reference_spacecraft_id), "i", "m/s", 3);
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
+  for (size_t target_spacecraft_id = 0; target_spacecraft_id < relative_distance_list_m_.size(); target_spacecraft_id++) {
     for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
       str_tmp += logger::WriteVector(
           "satellite" + std::to_string(target_spacecraft_id) + "_position_from_satellite" + std::to_string(reference_spacecraft_id), "rtn", "m", 3);
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
+  for (size_t target_spacecraft_id = 0; target_spacecraft_id < relative_distance_list_m_.size(); target_spacecraft_id++) {
     for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
       str_tmp += logger::WriteVector(
           "satellite" + std::to_string(target_spacecraft_id) + "_velocity_from_satellite" + std::to_string(reference_spacecraft_id), "rtn", "m/s", 3);
@@ -84,25 +86,25 @@ std::string RelativeInformation::GetLogHeader() const {
 
 std::string RelativeInformation::GetLogValue() const {
   std::string str_tmp = "";
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
+  for (size_t target_spacecraft_id = 0; target_spacecraft_id < relative_distance_list_m_.size(); target_spacecraft_id++) {
     for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
       str_tmp += logger::WriteVector(GetRelativePosition_i_m(target_spacecraft_id, reference_spacecraft_id));
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
+  for (size_t target_spacecraft_id = 0; target_spacecraft_id < relative_distance_list_m_.size(); target_spacecraft_id++) {
     for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
       str_tmp += logger::WriteVector(GetRelativeVelocity_i_m_s(target_spacecraft_id, reference_spacecraft_id));
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
+  for (size_t target_spacecraft_id = 0; target_spacecraft_id < relative_distance_list_m_.size(); target_spacecraft_id++) {
     for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
       str_tmp += logger::WriteVector(GetRelativePosition_rtn_m(target_spacecraft_id, reference_spacecraft_id));
     }
   }
 
-  for (size_t target_spacecraft_id = 0; target_spacecraft_id < dynamics_database_.size(); target_spacecraft_id++) {
+  for (size_t target_spacecraft_id = 0; target_spacecraft_id < relative_distance_list_m_.size(); target_spacecraft_id++) {
     for (size_t reference_spacecraft_id = 0; reference_spacecraft_id < target_spacecraft_id; reference_spacecraft_id++) {
       str_tmp += logger::WriteVector(GetRelativeVelocity_rtn_m_s(target_spacecraft_id, reference_spacecraft_id));
     }
@@ -157,7 +159,11 @@ math::Vector<3> RelativeInformation::CalcRelativeVelocity_rtn_m_s(const size_t t
 }
 
 void RelativeInformation::ResizeLists() {
-  size_t size = dynamics_database_.size();
+  // The lists are accessed with the spacecraft ID and keep their size when a spacecraft is removed
+  size_t size = relative_distance_list_m_.size();
+  if (!dynamics_database_.empty() && dynamics_database_.rbegin()->first >= size) {
+    size = dynamics_database_.rbegin()->first + 1;
+  }
   relative_position_list_i_m_.assign(size, std::vector<math::Vector<3>>(size, math::Vector<3>(0)));
   relative_velocity_list_i_m_s_.assign(size, std::vector<math::Vector<3>>(size, math::Vector<3>(0)));
   relative_distance_list_m_.assign(size, std::vector<double>(size, 0.0));
-- 
2.43.0


From f3366e81d1c217ba379db59a6a1055576fea30d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 036/138] fix: Harris-Priester density below and above the
 table has the right unit and is not read behind the table

---
 src/math_physics/atmosphere/harris_priester_model.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/atmosphere/harris_priester_model.cpp b/src/math_physics/atmosphere/harris_priester_model.cpp
index 6973caf..063aed3 100644
--- a/src/math_physics/atmosphere/harris_priester_model.cpp
+++ b/src/math_physics/atmosphere/harris_priester_model.cpp
@@ -55,10 +55,11 @@ double CalcAirDensityWithHarrisPriester_kg_m3(const geodesy::GeodeticPosition ge
   UNUSED(f10_7);  // TODO: Use F10.7 value to search coefficients
   auto min_density_itr = harris_priester_min_density_table.upper_bound(altitude_km);
   auto max_density_itr = harris_priester_max_density_table.upper_bound(altitude_km);
-  if (min_density_itr == harris_priester_min_density_table.begin()) return min_density_itr->second;
-  if (min_density_itr == harris_priester_min_density_table.end()) return (min_density_itr->second + max_density_itr->second) / 2.0;
+  if (min_density_itr == harris_priester_min_density_table.begin()) return min_density_itr->second * 1e-12;  // Unit conversion g/km3 -> kg/m^3
+  const bool is_above_table = min_density_itr == harris_priester_min_density_table.end();
   min_density_itr = prev(min_density_itr);
   max_density_itr = prev(max_density_itr);
+  if (is_above_table) return (min_density_itr->second + max_density_itr->second) / 2.0 * 1e-12;  // Unit conversion g/km3 -> kg/m^3
 
   // Calculate density
   double antapex_density_g_km3 = CalcApexDensity_g_km3(min_density_itr, altitude_km);
-- 
2.43.0


From 910bc95997642f9b72c7bfab136724ff90e06915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:27 +0000
Subject: [PATCH 037/138] fix: update the local celestial information also with
 the orbit, so that the solar pressure is not infinite before the first
 attitude update

---
 src/environment/local/local_environment.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/environment/local/local_environment.cpp b/src/environment/local/local_environment.cpp
index 5a1768d..2b0a298 100644
--- a/src/environment/local/local_environment.cpp
+++ b/src/environment/local/local_environment.cpp
@@ -57,10 +57,14 @@ void LocalEnvironment::Update(const dynamics::Dynamics* dynamics, const Simulati
   auto& orbit = dynamics->GetOrbit();
   auto& attitude = dynamics->GetAttitude();
 
-  // Update local environments that depend on the attitude (and the position)
-  if (simulation_time->GetAttitudePropagateFlag()) {
+  // Update the celestial information used by all other local environments
+  if (simulation_time->GetAttitudePropagateFlag() || simulation_time->GetOrbitPropagateFlag()) {
     celestial_information_->UpdateAllObjectsInformation(orbit.GetPosition_i_m(), orbit.GetVelocity_i_m_s(), attitude.GetQuaternion_i2b(),
                                                         attitude.GetAngularVelocity_b_rad_s());
+  }
+
+  // Update local environments that depend on the attitude (and the position)
+  if (simulation_time->GetAttitudePropagateFlag()) {
     geomagnetic_field_->CalcMagneticField(simulation_time->GetCurrentDecimalYear(), simulation_time->GetCurrentSiderealTime(),
                                           orbit.GetGeodeticPosition(), attitude.GetQuaternion_i2b());
   }
-- 
2.43.0


From 77d931e68c34ed5a8ce4fb7dbefe8420766d4d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:04 +0000
Subject: [PATCH 038/138] fix: end the attitude update with cantilever
 vibration at the requested time also when it is no multiple of the
 integration step

---
 .../attitude/attitude_with_cantilever_vibration.cpp         | 5 +++--
 .../numerical_integration/numerical_integrator.hpp          | 6 ++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
index d07cf23..771c4b8 100644
--- a/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
+++ b/src/dynamics/attitude/attitude_with_cantilever_vibration.cpp
@@ -86,12 +86,13 @@ void AttitudeWithCantileverVibration::Propagate(const double end_time_s) {
 
   math::Vector<13> state = attitude_ode_.SetStateFromPhysicalQuantities(angular_velocity_b_rad_s_, angular_velocity_cantilever_rad_s_,
                                                                         quaternion_i2b_, euler_angular_cantilever_rad_);
-  numerical_integrator_.GetIntegrator()->SetState(propagation_step_s_, state);
+  numerical_integrator_.GetIntegrator()->SetState(current_propagation_time_s_, state);
+  numerical_integrator_.GetIntegrator()->SetStepWidth(propagation_step_s_);
   while (end_time_s - current_propagation_time_s_ - propagation_step_s_ > 1.0e-6) {
     numerical_integrator_.GetIntegrator()->Integrate();
     current_propagation_time_s_ += propagation_step_s_;
   }
-  numerical_integrator_.GetIntegrator()->SetState(end_time_s - current_propagation_time_s_, numerical_integrator_.GetIntegrator()->GetState());
+  numerical_integrator_.GetIntegrator()->SetStepWidth(end_time_s - current_propagation_time_s_);
   numerical_integrator_.GetIntegrator()->Integrate();
   attitude_ode_.SetPhysicalQuantitiesFromState(numerical_integrator_.GetIntegrator()->GetState(), angular_velocity_b_rad_s_,
                                                angular_velocity_cantilever_rad_s_, quaternion_i2b_, euler_angular_cantilever_rad_);
diff --git a/src/math_physics/numerical_integration/numerical_integrator.hpp b/src/math_physics/numerical_integration/numerical_integrator.hpp
index 461bfa2..5ac80be 100644
--- a/src/math_physics/numerical_integration/numerical_integrator.hpp
+++ b/src/math_physics/numerical_integration/numerical_integrator.hpp
@@ -50,6 +50,12 @@ class NumericalIntegrator {
     previous_state_ = state;
   }
 
+  /**
+   * @fn SetStepWidth
+   * @brief Set step width. The unit is depending on the independent variable
+   */
+  inline void SetStepWidth(const double step_width) { step_width_ = step_width; }
+
   /**
    * @fn GetState
    * @brief Return current state vector
-- 
2.43.0


From 98f31ba66fbdfbb072fd5a8eff36537b6d18902f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:06 +0000
Subject: [PATCH 039/138] fix: the rate of the controlled attitude no longer
 changes sign when the sign of the attitude quaternion does

---
 src/dynamics/attitude/controlled_attitude.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index e92cc13..a6b5609 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -171,7 +171,8 @@ void ControlledAttitude::CalcAngularVelocity(const double current_time_s) {
     double time_diff_sec = current_time_s - previous_calc_time_s_;
     math::Quaternion prev_q_b2i = previous_quaternion_i2b_.Conjugate();
     math::Quaternion q_diff = prev_q_b2i * quaternion_i2b_;
-    q_diff = (2.0 / time_diff_sec) * q_diff;
+    const double sign = q_diff[3] < 0.0 ? -1.0 : 1.0;  // q and -q are the same attitude
+    q_diff = (sign * 2.0 / time_diff_sec) * q_diff;
 
     math::Vector<3> angular_acc_b_rad_s2_;
     for (int i = 0; i < 3; i++) {
-- 
2.43.0


From 748b0fa733b6511d0bae3a1da30595890a2ccd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:08 +0000
Subject: [PATCH 040/138] fix: reject inertial stabilization as sub mode of a
 pointing mode instead of pointing to an uninitialised direction

---
 src/dynamics/attitude/controlled_attitude.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index a6b5609..6465ba4 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -42,6 +42,11 @@ void ControlledAttitude::Initialize(void) {
       is_calc_enabled_ = false;
       return;
     }
+    if (sub_mode_ == AttitudeControlMode::kInertialStabilize) {
+      std::cout << "sub mode should have a pointing direction. \n";
+      is_calc_enabled_ = false;
+      return;
+    }
     // pointing direction check
     main_target_direction_b_ = main_target_direction_b_.CalcNormalizedVector();
     sub_target_direction_b_ = sub_target_direction_b_.CalcNormalizedVector();
-- 
2.43.0


From 0c301b619ba34ef4b66616f7fff950f4241c2c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:11 +0000
Subject: [PATCH 041/138] fix: normalise the main pointing direction, which
 setters and the inertial start mode leave at any length

---
 src/dynamics/attitude/controlled_attitude.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index 6465ba4..f7e3e7c 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -132,7 +132,7 @@ void ControlledAttitude::PointingControl(const math::Vector<3> main_direction_i,
 math::Matrix<3, 3> ControlledAttitude::CalcDcm(const math::Vector<3> main_direction, const math::Vector<3> sub_direction) {
   // Calc basis vectors
   math::Vector<3> ex, ey, ez;
-  ex = main_direction;
+  ex = main_direction.CalcNormalizedVector();
   math::Vector<3> tmp1 = OuterProduct(ex, sub_direction);
   math::Vector<3> tmp2 = OuterProduct(tmp1, ex);
   ey = tmp2.CalcNormalizedVector();
-- 
2.43.0


From a3bbf60c0df16a88764b3c580eebaf81b83b497a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 042/138] fix: report angular momentum and kinetic energy of
 the controlled attitude instead of zero

---
 src/dynamics/attitude/controlled_attitude.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dynamics/attitude/controlled_attitude.cpp b/src/dynamics/attitude/controlled_attitude.cpp
index f7e3e7c..2a27708 100644
--- a/src/dynamics/attitude/controlled_attitude.cpp
+++ b/src/dynamics/attitude/controlled_attitude.cpp
@@ -78,6 +78,8 @@ void ControlledAttitude::Propagate(const double end_time_s) {
   PointingControl(main_direction_i, sub_direction_i);
   // Calc angular velocity
   CalcAngularVelocity(end_time_s);
+  // Update angular momentum and kinetic energy
+  CalcAngularMomentum();
   return;
 }
 
-- 
2.43.0


From a73d3c12922416df7ae9fbe689791595f22ffeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:03 +0000
Subject: [PATCH 043/138] fix: rectify the Encke orbit with position and time
 of the same instant and without losing the acceleration of the step

---
 src/dynamics/orbit/encke_orbit_propagation.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/dynamics/orbit/encke_orbit_propagation.cpp b/src/dynamics/orbit/encke_orbit_propagation.cpp
index 5a1ae0d..a3a4579 100644
--- a/src/dynamics/orbit/encke_orbit_propagation.cpp
+++ b/src/dynamics/orbit/encke_orbit_propagation.cpp
@@ -29,13 +29,6 @@ EnckeOrbitPropagation::~EnckeOrbitPropagation() {}
 void EnckeOrbitPropagation::Propagate(const double end_time_s, const double current_time_jd) {
   if (!is_calc_enabled_) return;
 
-  // Rectification
-  double norm_sat_position_m = spacecraft_position_i_m_.CalcNorm();
-  double norm_difference_position_m = difference_position_i_m_.CalcNorm();
-  if (norm_difference_position_m / norm_sat_position_m > error_tolerance_) {
-    Initialize(current_time_jd, spacecraft_position_i_m_, spacecraft_velocity_i_m_s_);
-  }
-
   // Update reference orbit
   reference_kepler_orbit.CalcOrbit(current_time_jd);
   reference_position_i_m_ = reference_kepler_orbit.GetPosition_i_m();
@@ -59,6 +52,13 @@ void EnckeOrbitPropagation::Propagate(const double end_time_s, const double curr
   difference_velocity_i_m_s_[2] = GetState()[5];
 
   UpdateSatOrbit();
+
+  // Rectification
+  double norm_sat_position_m = spacecraft_position_i_m_.CalcNorm();
+  double norm_difference_position_m = difference_position_i_m_.CalcNorm();
+  if (norm_difference_position_m / norm_sat_position_m > error_tolerance_) {
+    Initialize(current_time_jd, spacecraft_position_i_m_, spacecraft_velocity_i_m_s_);
+  }
 }
 
 // Functions for OrdinaryDifferentialEquation
@@ -86,9 +86,6 @@ void EnckeOrbitPropagation::DerivativeFunction(double t, const math::Vector<6>&
 
 // Private Functions
 void EnckeOrbitPropagation::Initialize(double current_time_jd, math::Vector<3> reference_position_i_m, math::Vector<3> reference_velocity_i_m_s) {
-  // General
-  spacecraft_acceleration_i_m_s2_.FillUp(0.0);
-
   // reference orbit
   reference_position_i_m_ = reference_position_i_m;
   reference_velocity_i_m_s_ = reference_velocity_i_m_s;
-- 
2.43.0


From 1e2fe5e8a59e3c2fa49423ff811f2e3de0716b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 044/138] fix: evaluate the reference orbit of Encke's method
 at the time of the integration step, not at the end of the update

---
 .../orbit/encke_orbit_propagation.cpp         | 29 +++++++++++--------
 .../orbit/encke_orbit_propagation.hpp         |  4 ++-
 2 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/dynamics/orbit/encke_orbit_propagation.cpp b/src/dynamics/orbit/encke_orbit_propagation.cpp
index a3a4579..5a3632f 100644
--- a/src/dynamics/orbit/encke_orbit_propagation.cpp
+++ b/src/dynamics/orbit/encke_orbit_propagation.cpp
@@ -29,11 +29,6 @@ EnckeOrbitPropagation::~EnckeOrbitPropagation() {}
 void EnckeOrbitPropagation::Propagate(const double end_time_s, const double current_time_jd) {
   if (!is_calc_enabled_) return;
 
-  // Update reference orbit
-  reference_kepler_orbit.CalcOrbit(current_time_jd);
-  reference_position_i_m_ = reference_kepler_orbit.GetPosition_i_m();
-  reference_velocity_i_m_s_ = reference_kepler_orbit.GetVelocity_i_m_s();
-
   // Propagate difference orbit
   SetStepWidth(propagation_step_s_);  // Re-set propagation Δt
   while (end_time_s - propagation_time_s_ - propagation_step_s_ > 1.0e-6) {
@@ -44,6 +39,11 @@ void EnckeOrbitPropagation::Propagate(const double end_time_s, const double curr
   Update();
   propagation_time_s_ = end_time_s;
 
+  // Update reference orbit
+  reference_kepler_orbit.CalcOrbit(current_time_jd);
+  reference_position_i_m_ = reference_kepler_orbit.GetPosition_i_m();
+  reference_velocity_i_m_s_ = reference_kepler_orbit.GetVelocity_i_m_s();
+
   difference_position_i_m_[0] = GetState()[0];
   difference_position_i_m_[1] = GetState()[1];
   difference_position_i_m_[2] = GetState()[2];
@@ -63,18 +63,22 @@ void EnckeOrbitPropagation::Propagate(const double end_time_s, const double curr
 
 // Functions for OrdinaryDifferentialEquation
 void EnckeOrbitPropagation::DerivativeFunction(double t, const math::Vector<6>& state, math::Vector<6>& rhs) {
-  UNUSED(t);
   math::Vector<3> difference_position_i_m_m, difference_acc_i_m_s2;
   for (int i = 0; i < 3; i++) {
     difference_position_i_m_m[i] = state[i];
   }
 
-  double q_func = CalcQFunction(difference_position_i_m_m);
-  double r_m = reference_position_i_m_.CalcNorm();
+  // Reference orbit at the time of the integration step
+  reference_kepler_orbit.CalcOrbit(reference_time_jd_ + t / (24.0 * 60.0 * 60.0));
+  const math::Vector<3> reference_position_i_m = reference_kepler_orbit.GetPosition_i_m();
+  const math::Vector<3> position_i_m = reference_position_i_m + difference_position_i_m_m;
+
+  double q_func = CalcQFunction(difference_position_i_m_m, position_i_m);
+  double r_m = reference_position_i_m.CalcNorm();
   double r_m3 = pow(r_m, 3.0);
 
   difference_acc_i_m_s2 =
-      -(gravity_constant_m3_s2_ / r_m3) * (q_func * spacecraft_position_i_m_ + difference_position_i_m_m) + spacecraft_acceleration_i_m_s2_;
+      -(gravity_constant_m3_s2_ / r_m3) * (q_func * position_i_m + difference_position_i_m_m) + spacecraft_acceleration_i_m_s2_;
 
   rhs[0] = state[3];
   rhs[1] = state[4];
@@ -87,6 +91,7 @@ void EnckeOrbitPropagation::DerivativeFunction(double t, const math::Vector<6>&
 // Private Functions
 void EnckeOrbitPropagation::Initialize(double current_time_jd, math::Vector<3> reference_position_i_m, math::Vector<3> reference_velocity_i_m_s) {
   // reference orbit
+  reference_time_jd_ = current_time_jd;
   reference_position_i_m_ = reference_position_i_m;
   reference_velocity_i_m_s_ = reference_velocity_i_m_s;
   s2e::orbit::OrbitalElements oe_ref(gravity_constant_m3_s2_, current_time_jd, reference_position_i_m, reference_velocity_i_m_s);
@@ -110,12 +115,12 @@ void EnckeOrbitPropagation::UpdateSatOrbit() {
   TransformEcefToGeodetic();
 }
 
-double EnckeOrbitPropagation::CalcQFunction(math::Vector<3> difference_position_i_m) {
+double EnckeOrbitPropagation::CalcQFunction(const math::Vector<3> difference_position_i_m, const math::Vector<3> position_i_m) {
   double r2;
-  r2 = InnerProduct(spacecraft_position_i_m_, spacecraft_position_i_m_);
+  r2 = InnerProduct(position_i_m, position_i_m);
 
   math::Vector<3> dr_2r;
-  dr_2r = difference_position_i_m - 2.0 * spacecraft_position_i_m_;
+  dr_2r = difference_position_i_m - 2.0 * position_i_m;
 
   double q = InnerProduct(difference_position_i_m, dr_2r) / r2;
 
diff --git a/src/dynamics/orbit/encke_orbit_propagation.hpp b/src/dynamics/orbit/encke_orbit_propagation.hpp
index 68542f1..884368a 100644
--- a/src/dynamics/orbit/encke_orbit_propagation.hpp
+++ b/src/dynamics/orbit/encke_orbit_propagation.hpp
@@ -65,6 +65,7 @@ class EnckeOrbitPropagation : public Orbit, public math::OrdinaryDifferentialEqu
   double propagation_time_s_;            //!< Simulation current time for numerical integration by RK4
 
   // reference orbit
+  double reference_time_jd_;                       //!< Julian date at which the difference orbit was initialized [day]
   math::Vector<3> reference_position_i_m_;         //!< Reference orbit position in the inertial frame [m]
   math::Vector<3> reference_velocity_i_m_s_;       //!< Reference orbit velocity in the inertial frame [m/s]
   s2e::orbit::KeplerOrbit reference_kepler_orbit;  //!< Reference Kepler orbital element
@@ -91,8 +92,9 @@ class EnckeOrbitPropagation : public Orbit, public math::OrdinaryDifferentialEqu
    * @fn CalcQFunction
    * @brief Calculate Q function
    * @param [in] difference_position_i_m: Difference of position in the inertial frame [m]
+   * @param [in] position_i_m: Position of the spacecraft in the inertial frame [m]
    */
-  double CalcQFunction(const math::Vector<3> difference_position_i_m);
+  double CalcQFunction(const math::Vector<3> difference_position_i_m, const math::Vector<3> position_i_m);
 };
 
 }  // namespace s2e::dynamics::orbit
-- 
2.43.0


From 2d10bc5be27adc69a7859b77f220f8141fed71cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 045/138] fix: include the rotation of the LVLH frame in the
 inertial velocity of the relative orbit

---
 src/dynamics/orbit/relative_orbit.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/orbit/relative_orbit.cpp b/src/dynamics/orbit/relative_orbit.cpp
index 6f4b260..6599582 100644
--- a/src/dynamics/orbit/relative_orbit.cpp
+++ b/src/dynamics/orbit/relative_orbit.cpp
@@ -45,7 +45,12 @@ void RelativeOrbit::InitializeState(math::Vector<3> relative_position_lvlh_m, ma
   math::Quaternion q_i2lvlh = relative_information_->GetReferenceSatDynamics(reference_spacecraft_id_)->GetOrbit().CalcQuaternion_i2lvlh();
   math::Quaternion q_lvlh2i = q_i2lvlh.Conjugate();
   spacecraft_position_i_m_ = q_lvlh2i.FrameConversion(relative_position_lvlh_m_) + reference_sat_position_i;
-  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) + reference_sat_velocity_i;
+  // The relative velocity is defined in the rotating LVLH frame
+  math::Vector<3> lvlh_angular_velocity_i_rad_s = OuterProduct(reference_sat_position_i, reference_sat_velocity_i);
+  lvlh_angular_velocity_i_rad_s /= InnerProduct(reference_sat_position_i, reference_sat_position_i);
+  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) +
+                               OuterProduct(lvlh_angular_velocity_i_rad_s, spacecraft_position_i_m_ - reference_sat_position_i) +
+                               reference_sat_velocity_i;
 
   initial_state_[0] = relative_position_lvlh_m[0];
   initial_state_[1] = relative_position_lvlh_m[1];
@@ -116,7 +121,12 @@ void RelativeOrbit::Propagate(const double end_time_s, const double current_time
   math::Quaternion q_lvlh2i = q_i2lvlh.Conjugate();
 
   spacecraft_position_i_m_ = q_lvlh2i.FrameConversion(relative_position_lvlh_m_) + reference_sat_position_i;
-  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) + reference_sat_velocity_i;
+  // The relative velocity is defined in the rotating LVLH frame
+  math::Vector<3> lvlh_angular_velocity_i_rad_s = OuterProduct(reference_sat_position_i, reference_sat_velocity_i);
+  lvlh_angular_velocity_i_rad_s /= InnerProduct(reference_sat_position_i, reference_sat_position_i);
+  spacecraft_velocity_i_m_s_ = q_lvlh2i.FrameConversion(relative_velocity_lvlh_m_s_) +
+                               OuterProduct(lvlh_angular_velocity_i_rad_s, spacecraft_position_i_m_ - reference_sat_position_i) +
+                               reference_sat_velocity_i;
   TransformEciToEcef();
   TransformEcefToGeodetic();
 }
-- 
2.43.0


From 3d1bea23e03b5895554b1f00085c515de0e675c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:22 +0000
Subject: [PATCH 046/138] fix: follow the time series orbit with any update
 period and up to its last row, without reading outside of the table

---
 .../time_series_file_orbit_propagation.cpp    | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
index 5230a18..e8da957 100644
--- a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
+++ b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
@@ -5,6 +5,9 @@
 
 #include "time_series_file_orbit_propagation.hpp"
 
+#include <algorithm>
+#include <cmath>
+#include <cstdlib>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -33,6 +36,12 @@ TimeSeriesFileOrbitPropagation::TimeSeriesFileOrbitPropagation(const environment
   setting_file_reader::IniAccess time_series_file(time_series_file_path);
   time_series_file.ReadCsvDoubleWithHeader(time_series_data_, 7, 1, 0);
 
+  if (number_of_interpolation < 1 || time_series_data_.size() < static_cast<size_t>(number_of_interpolation)) {
+    std::cerr << "[ERROR] Time series file orbit propagation: " << time_series_file_path << " has less rows than needed for the interpolation."
+              << std::endl;
+    std::exit(1);
+  }
+
   // Get general info
   size_t nearest_ephemeris_time_id = SearchNearestEphemerisTimeId(current_time_jd);
 
@@ -40,6 +49,9 @@ TimeSeriesFileOrbitPropagation::TimeSeriesFileOrbitPropagation(const environment
   if (nearest_ephemeris_time_id >= half_interpolation_number) {
     reference_interpolation_id_ = nearest_ephemeris_time_id - half_interpolation_number;
   }
+  if (reference_interpolation_id_ + number_of_interpolation > time_series_data_.size()) {
+    reference_interpolation_id_ = time_series_data_.size() - number_of_interpolation;
+  }
 
   reference_time_ = CalcEphemerisTimeData(reference_interpolation_id_);
 
@@ -76,7 +88,7 @@ size_t TimeSeriesFileOrbitPropagation::SearchNearestEphemerisTimeId(const double
 }
 
 double TimeSeriesFileOrbitPropagation::CalcEphemerisTimeData(const size_t ephemeris_time_id) const {
-  if (ephemeris_time_id > time_series_data_.size()) {
+  if (ephemeris_time_id >= time_series_data_.size()) {
     return 0;
   }
   return time_series_data_[ephemeris_time_id][0];
@@ -90,8 +102,8 @@ void TimeSeriesFileOrbitPropagation::Propagate(const double end_time_s, const do
   // Check interpolation update
   double current_ephemris_time = (current_time_jd - 2451545.0) * 86400.0;
   double diff_s = current_ephemris_time - reference_time_;
-  double medium_time_s = orbit_position_i_m_[0].GetTimeList()[static_cast<std::size_t>(std::round(number_of_interpolation_ / 2.0))];
-  if (diff_s > medium_time_s) {
+  const size_t medium_id = static_cast<std::size_t>(std::min(std::round(number_of_interpolation_ / 2.0), number_of_interpolation_ - 1.0));
+  while (diff_s > orbit_position_i_m_[0].GetTimeList()[medium_id] && reference_interpolation_id_ < time_series_data_.size()) {
     UpdateInterpolationInformation();
   }
   if (diff_s < 0.0) {
@@ -103,7 +115,7 @@ void TimeSeriesFileOrbitPropagation::Propagate(const double end_time_s, const do
       spacecraft_position_i_m_[i] = time_series_data_[0][i + 1];
       spacecraft_velocity_i_m_s_[i] = time_series_data_[0][i + 4];
     }
-  } else if (diff_s > 1e6 || reference_interpolation_id_ >= time_series_data_.size()) {
+  } else if (current_ephemris_time > time_series_data_[time_series_data_.size() - 1][0]) {
     if (!is_time_range_warning_displayed_) {
       std::cout << "[WARNING] Time series file orbit propagation: Time is out of range of time series file." << std::endl;
       is_time_range_warning_displayed_ = true;
-- 
2.43.0


From 12f72e9f65581b28d1de3573e99ce7756aa9d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:16 +0000
Subject: [PATCH 047/138] fix: wait for the host time left at the configured
 speed instead of the simulated time, and start the catch-up timer after the
 wait

---
 src/environment/global/simulation_time.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/environment/global/simulation_time.cpp b/src/environment/global/simulation_time.cpp
index b0d032b..dd9a155 100644
--- a/src/environment/global/simulation_time.cpp
+++ b/src/environment/global/simulation_time.cpp
@@ -95,8 +95,8 @@ void SimulationTime::UpdateTime(void) {
   elapsed_time_sec_ += step_sec_;
   if (simulation_speed_ > 0) {
     chrono::steady_clock clk;
-    int toWaitTime = (int)(elapsed_time_sec_ * 1000 -
-                           chrono::duration_cast<chrono::milliseconds>(clk.now() - clock_start_time_millisec_).count() * simulation_speed_);
+    int toWaitTime = (int)(elapsed_time_sec_ * 1000 / simulation_speed_ -
+                           chrono::duration_cast<chrono::milliseconds>(clk.now() - clock_start_time_millisec_).count());
     if (toWaitTime <= 0) {
       // When the execution time is larger than specified step_sec
 
@@ -113,14 +113,14 @@ void SimulationTime::UpdateTime(void) {
         clock_last_time_completed_step_in_time_ = clk.now();
       }
     } else {
-      clock_last_time_completed_step_in_time_ = clk.now();
-
 #ifdef WIN32
       Sleep(toWaitTime);
 #else
       const struct timespec req = {toWaitTime / 1000, (toWaitTime % 1000) * 1000000};
       nanosleep(&req, NULL);
 #endif
+
+      clock_last_time_completed_step_in_time_ = clk.now();
     }
   }
 
-- 
2.43.0


From 1a8b946fd058c0366a14fb93ca9175e5bf5a350f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 048/138] fix: calculate the geodetic altitude without the
 division by cos(latitude), which stopped the simulation at the poles

---
 src/math_physics/geodesy/geodetic_position.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/geodesy/geodetic_position.cpp b/src/math_physics/geodesy/geodetic_position.cpp
index b72aa18..7f6d715 100644
--- a/src/math_physics/geodesy/geodetic_position.cpp
+++ b/src/math_physics/geodesy/geodetic_position.cpp
@@ -44,7 +44,8 @@ void GeodeticPosition::UpdateFromEcef(const math::Vector<3> position_ecef_m) {
     lat_tmp_rad = AcTan(position_ecef_m[2] + earth_radius_m * c * e2 * sin(phi), r_m);
   } while (fabs(lat_tmp_rad - phi) >= 1E-10);
 
-  altitude_m_ = r_m / cos(lat_tmp_rad) - c * earth_radius_m;
+  // Regular at the poles
+  altitude_m_ = r_m * cos(lat_tmp_rad) + position_ecef_m[2] * sin(lat_tmp_rad) - earth_radius_m / c;
 
   if (lat_tmp_rad > math::pi_2) lat_tmp_rad -= math::tau;
 
-- 
2.43.0


From 69f2356362f5fc3484560a629c10c6764b0d9d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:27 +0000
Subject: [PATCH 049/138] fix: compose the relative attitude in the order of
 the frame conversions, from the body of the reference to the body of the
 target

---
 src/simulation/multiple_spacecraft/relative_information.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/multiple_spacecraft/relative_information.cpp b/src/simulation/multiple_spacecraft/relative_information.cpp
index dea66ec..b18bd40 100644
--- a/src/simulation/multiple_spacecraft/relative_information.cpp
+++ b/src/simulation/multiple_spacecraft/relative_information.cpp
@@ -123,7 +123,7 @@ math::Quaternion RelativeInformation::CalcRelativeAttitudeQuaternion(const size_
   // ECI frame(i) -> Target SC body frame(main_sat)
   math::Quaternion q_target_i2b = dynamics_database_.at(target_spacecraft_id)->GetAttitude().GetQuaternion_i2b();
 
-  return q_target_i2b * q_reference_b2i;
+  return q_reference_b2i * q_target_i2b;
 }
 
 math::Vector<3> RelativeInformation::CalcRelativePosition_rtn_m(const size_t target_spacecraft_id, const size_t reference_spacecraft_id) {
-- 
2.43.0


From b64bcfeb56c0d3f7332b89c93cb9c68fd1bf9f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 050/138] fix: keep the force of a surface that faces the sun
 or the air exactly finite

---
 src/disturbances/surface_force.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/disturbances/surface_force.cpp b/src/disturbances/surface_force.cpp
index 391a782..a2a0ef1 100644
--- a/src/disturbances/surface_force.cpp
+++ b/src/disturbances/surface_force.cpp
@@ -5,6 +5,9 @@
 
 #include "surface_force.hpp"
 
+#include <algorithm>
+#include <cmath>
+
 #include "../math_physics/math/vector.hpp"
 
 namespace s2e::disturbances {
@@ -52,7 +55,7 @@ void SurfaceForce::CalcTheta(math::Vector<3>& input_direction_b) {
 
   for (size_t i = 0; i < surfaces_.size(); i++) {
     cos_theta_[i] = InnerProduct(surfaces_[i].GetNormal_b(), input_b_normal);
-    sin_theta_[i] = sqrt(1.0 - cos_theta_[i] * cos_theta_[i]);
+    sin_theta_[i] = sqrt(std::max(0.0, 1.0 - cos_theta_[i] * cos_theta_[i]));
   }
 }
 
-- 
2.43.0


From b9dc4ff7cf08f97f4dd39d3cba63d7bf95138259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:46 +0000
Subject: [PATCH 051/138] fix: add every configured shadow source instead of
 the first one repeatedly

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index c571f30..371d188 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -116,7 +116,7 @@ SolarRadiationPressureEnvironment InitSolarRadiationPressureEnvironment(std::str
   size_t number_of_third_shadow_source = conf.ReadInt(section, "number_of_third_shadow_source");
   std::vector<std::string> list = conf.ReadVectorString(section, "third_shadow_source_name", number_of_third_shadow_source);
   for (size_t i = 0; i < number_of_third_shadow_source; i++) {
-    srp_env.AddShadowSource(list[0]);
+    srp_env.AddShadowSource(list[i]);
   }
 
   return srp_env;
-- 
2.43.0


From 3942912cffa9fd806b5678c103e73e43d1ed2ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:47 +0000
Subject: [PATCH 052/138] fix: keep the shadow of the other sources when one
 source covers the sun annularly

---
 src/environment/local/solar_radiation_pressure_environment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index 371d188..381c86b 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -89,7 +89,7 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
     shadow_coefficient_ *= 0.0;
   } else if (c < fabs(a - b) && a > b)  // The occultation is partial but maximum
   {
-    shadow_coefficient_ = 1.0 - (b * b) / (a * a);
+    shadow_coefficient_ *= 1.0 - (b * b) / (a * a);
   } else if (fabs(a - b) <= c && c <= (a + b))  // spacecraft is in penumbra
   {
     double A = a * a * acos(x / a) + b * b * acos((c - x) / b) - c * y;  // The area of the occulted segment of the apparent solar disk
-- 
2.43.0


From 4364f5e6a4bfd7fd78e19086a8ce80037209d528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 053/138] fix: measure the separation of the sun and the shadow
 source from the spacecraft and keep the shadow finite at exact alignment

---
 .../solar_radiation_pressure_environment.cpp   | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/environment/local/solar_radiation_pressure_environment.cpp b/src/environment/local/solar_radiation_pressure_environment.cpp
index 381c86b..0b1f408 100644
--- a/src/environment/local/solar_radiation_pressure_environment.cpp
+++ b/src/environment/local/solar_radiation_pressure_environment.cpp
@@ -72,9 +72,11 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
   const double sd_sun = asin(sun_radius_m_ / distance_sat_to_sun);                     // Apparent radius of the sun
   const double sd_source = asin(shadow_source_radius_m / r_sc2source_eci.CalcNorm());  // Apparent radius of the shadow source
 
-  // Angle of deviation from shadow source center to sun center
-  math::Vector<3> r_source2sun_eci = r_sc2sun_eci - r_sc2source_eci;
-  const double delta = acos(InnerProduct(r_sc2source_eci, r_sc2sun_eci - r_sc2source_eci) / r_sc2source_eci.CalcNorm() / r_source2sun_eci.CalcNorm());
+  if (r_sc2source_eci.CalcNorm() > distance_sat_to_sun) return;  // The source is behind the sun
+
+  // Angle of deviation from shadow source center to sun center seen from the spacecraft
+  const double cos_delta = InnerProduct(r_sc2source_eci, r_sc2sun_eci) / r_sc2source_eci.CalcNorm() / distance_sat_to_sun;
+  const double delta = acos(std::min(std::max(cos_delta, -1.0), 1.0));
   // The angle between the center of the sun and the common chord
   const double x = (delta * delta + sd_sun * sd_sun - sd_source * sd_source) / (2.0 * delta);
   // The length of the common chord of the apparent solar disk and apparent telestial disk
@@ -84,15 +86,17 @@ void SolarRadiationPressureEnvironment::CalcShadowCoefficient(std::string shadow
   const double b = sd_source;
   const double c = delta;
 
-  if (c < fabs(a - b) && a <= b)  // The occultation is total (spacecraft is in umbra)
+  if (c <= fabs(a - b) && a <= b)  // The occultation is total (spacecraft is in umbra)
   {
     shadow_coefficient_ *= 0.0;
-  } else if (c < fabs(a - b) && a > b)  // The occultation is partial but maximum
+  } else if (c <= fabs(a - b) && a > b)  // The occultation is partial but maximum
   {
     shadow_coefficient_ *= 1.0 - (b * b) / (a * a);
-  } else if (fabs(a - b) <= c && c <= (a + b))  // spacecraft is in penumbra
+  } else if (fabs(a - b) < c && c <= (a + b))  // spacecraft is in penumbra
   {
-    double A = a * a * acos(x / a) + b * b * acos((c - x) / b) - c * y;  // The area of the occulted segment of the apparent solar disk
+    const double half_angle_sun = acos(std::min(std::max(x / a, -1.0), 1.0));
+    const double half_angle_source = acos(std::min(std::max((c - x) / b, -1.0), 1.0));
+    double A = a * a * half_angle_sun + b * b * half_angle_source - c * y;  // The area of the occulted segment of the apparent solar disk
     shadow_coefficient_ *= 1.0 - A / (math::pi * a * a);
   } else {  // no occultation takes place
     if (c < (a + b)) {
-- 
2.43.0


From 30b98d0d7db204e90bab83c7b9e80be375ec0260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 054/138] fix: calculate the velocity of celestial bodies in
 the body frame with the angular velocity and the position in the same frame

---
 .../local/local_celestial_information.cpp     | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/environment/local/local_celestial_information.cpp b/src/environment/local/local_celestial_information.cpp
index dab63ee..1f3ce92 100644
--- a/src/environment/local/local_celestial_information.cpp
+++ b/src/environment/local/local_celestial_information.cpp
@@ -114,22 +114,15 @@ void LocalCelestialInformation::ConvertVelocityInertialToBody(const double* posi
     ri[i] = position_i[i];
   }
 
-  // convert body rate vector into that in inertial coordinate
-  math::Vector<3> wb;
-  for (int i = 0; i < 3; i++) {
-    wb[i] = angular_velocity_b[i];
-  }
+  // convert vectors in inertial coordinate into that in body coordinate
+  math::Vector<3> temp_b = quaternion_i2b.FrameConversion(vi);
+  math::Vector<3> rb = quaternion_i2b.FrameConversion(ri);
 
   // compute cross term wxr
-  math::Vector<3> wxposition_i = OuterProduct(wb, ri);
-  // compute dr/dt + wxr
-  for (int i = 0; i < 3; i++) {
-    vi[i] = vi[i] - wxposition_i[i];
-  }
-  // convert vector in inertial coordinate into that in body coordinate
-  math::Vector<3> temp_b = quaternion_i2b.FrameConversion(vi);
+  math::Vector<3> wxposition_b = OuterProduct(angular_velocity_b, rb);
+  // compute dr/dt - wxr
   for (int i = 0; i < 3; i++) {
-    velocity_b[i] = temp_b[i];
+    velocity_b[i] = temp_b[i] - wxposition_b[i];
   }
 }
 
-- 
2.43.0


From 452222fa0c2a7669193d2d8ca71138e09682ea8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:51 +0000
Subject: [PATCH 055/138] fix: give the simple air density model a density at
 exactly 1000 km

---
 src/math_physics/atmosphere/simple_air_density_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/simple_air_density_model.cpp b/src/math_physics/atmosphere/simple_air_density_model.cpp
index f616f67..7b89adf 100644
--- a/src/math_physics/atmosphere/simple_air_density_model.cpp
+++ b/src/math_physics/atmosphere/simple_air_density_model.cpp
@@ -15,7 +15,7 @@ double CalcAirDensityWithSimpleModel(const double altitude_m) {
   double base_rho_kg_m3;
 
   // scale_height_km values: Ref "ミッション解析と軌道設計の基礎" (in Japanese)
-  if (altitude_km > 1000.0) {
+  if (altitude_km >= 1000.0) {
     scale_height_km = 268.0;
     base_height_km = 1000.0;
     base_rho_kg_m3 = 3.019E-15;
-- 
2.43.0


From 789b2f6c38e96bc70fdde19e6c0dbad62d5c9d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 056/138] fix: find the diurnal bulge of the Harris-Priester
 density with the sun direction in the Earth fixed frame

---
 src/environment/local/atmosphere.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/environment/local/atmosphere.cpp b/src/environment/local/atmosphere.cpp
index 74b2323..95de35e 100644
--- a/src/environment/local/atmosphere.cpp
+++ b/src/environment/local/atmosphere.cpp
@@ -68,8 +68,11 @@ double Atmosphere::CalcAirDensity_kg_m3(const double decimal_year, const dynamic
                                         manual_average_f107_, manual_ap_);
   } else if (model_ == "HARRIS_PRIESTER") {
     // Harris-Priester
-    math::Vector<3> sun_direction_eci = local_celestial_information_->GetGlobalInformation().GetPositionFromCenter_i_m("SUN").CalcNormalizedVector();
-    air_density_kg_m3_ = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(orbit.GetGeodeticPosition(), sun_direction_eci);
+    // The geodetic position rotates with the Earth, so the sun direction is given in the same frame
+    const CelestialInformation& celestial_information = local_celestial_information_->GetGlobalInformation();
+    math::Vector<3> sun_direction_eci = celestial_information.GetPositionFromCenter_i_m("SUN").CalcNormalizedVector();
+    math::Vector<3> sun_direction_ecef = celestial_information.GetEarthRotation().GetDcmJ2000ToEcef() * sun_direction_eci;
+    air_density_kg_m3_ = atmosphere::CalcAirDensityWithHarrisPriester_kg_m3(orbit.GetGeodeticPosition(), sun_direction_ecef);
   } else {
     // No suitable model
     return air_density_kg_m3_ = 0.0;
-- 
2.43.0


From 98d5435304bde88f195434148919e6dbb72e9a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 057/138] fix: count a body listed more than once as shadow
 source only once

---
 .../local/solar_radiation_pressure_environment.hpp            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/environment/local/solar_radiation_pressure_environment.hpp b/src/environment/local/solar_radiation_pressure_environment.hpp
index 98f833b..1429e0c 100644
--- a/src/environment/local/solar_radiation_pressure_environment.hpp
+++ b/src/environment/local/solar_radiation_pressure_environment.hpp
@@ -45,6 +45,10 @@ class SolarRadiationPressureEnvironment : public logger::ILoggable {
    */
   void AddShadowSource(const std::string shadow_source_name) {
     // TODO: Add assertion
+    // The same body covers the sun only once
+    for (const auto& registered_name : shadow_source_name_list_) {
+      if (registered_name == shadow_source_name) return;
+    }
     shadow_source_name_list_.push_back(shadow_source_name);
   }
 
-- 
2.43.0


From 9f8c5d5c9b44a6bfa3c4bc1c4b047a7620a8d9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:05 +0000
Subject: [PATCH 058/138] fix: calculate the gravity potential up to the degree
 of the available coefficients

---
 src/disturbances/geopotential.cpp        | 2 +-
 src/disturbances/lunar_gravity_field.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disturbances/geopotential.cpp b/src/disturbances/geopotential.cpp
index cb6ba22..73b6ddc 100644
--- a/src/disturbances/geopotential.cpp
+++ b/src/disturbances/geopotential.cpp
@@ -45,7 +45,7 @@ Geopotential::Geopotential(const int degree, const std::string file_path, const
     }
   }
   // Initialize GravityPotential
-  geopotential_ = gravity::GravityPotential(degree, c_, s_);
+  geopotential_ = gravity::GravityPotential(degree_, c_, s_);
 }
 
 bool Geopotential::ReadCoefficientsEgm96(std::string file_name) {
diff --git a/src/disturbances/lunar_gravity_field.cpp b/src/disturbances/lunar_gravity_field.cpp
index 182b447..e225917 100644
--- a/src/disturbances/lunar_gravity_field.cpp
+++ b/src/disturbances/lunar_gravity_field.cpp
@@ -48,7 +48,7 @@ LunarGravityField::LunarGravityField(const int degree, const std::string file_pa
     }
   }
   // Initialize GravityPotential
-  lunar_potential_ = gravity::GravityPotential(degree, c_, s_, gravity_constants_km3_s2_ * 1e9, reference_radius_km_ * 1e3);
+  lunar_potential_ = gravity::GravityPotential(degree_, c_, s_, gravity_constants_km3_s2_ * 1e9, reference_radius_km_ * 1e3);
 }
 
 bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string file_name) {
-- 
2.43.0


From 445ec76bd08924227a02671de2a1a293eb673fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:07 +0000
Subject: [PATCH 059/138] fix: refer to the celestial information in the lunar
 gravity field instead of copying it without its rotations

---
 src/disturbances/lunar_gravity_field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/disturbances/lunar_gravity_field.cpp b/src/disturbances/lunar_gravity_field.cpp
index e225917..1bdbc80 100644
--- a/src/disturbances/lunar_gravity_field.cpp
+++ b/src/disturbances/lunar_gravity_field.cpp
@@ -89,7 +89,7 @@ bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string file_name) {
 }
 
 void LunarGravityField::Update(const environment::LocalEnvironment &local_environment, const dynamics::Dynamics &dynamics) {
-  const environment::CelestialInformation global_celestial_information = local_environment.GetCelestialInformation().GetGlobalInformation();
+  const environment::CelestialInformation &global_celestial_information = local_environment.GetCelestialInformation().GetGlobalInformation();
   math::Matrix<3, 3> dcm_mci2mcmf_ = global_celestial_information.GetMoonRotation().GetDcmJ2000ToMcmf();
 
   math::Vector<3> spacecraft_position_mci_m = dynamics.GetOrbit().GetPosition_i_m();
-- 
2.43.0


From 7adaac8e9a382b4cc7010ddf339422a17a7a8d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:09 +0000
Subject: [PATCH 060/138] fix: do not stop orbits around other bodies than the
 Earth because of the geodetic altitude

---
 src/dynamics/orbit/orbit.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/orbit/orbit.cpp b/src/dynamics/orbit/orbit.cpp
index dbdcb77..e7b8bbf 100644
--- a/src/dynamics/orbit/orbit.cpp
+++ b/src/dynamics/orbit/orbit.cpp
@@ -44,8 +44,8 @@ void Orbit::TransformEciToEcef(void) {
 
 void Orbit::TransformEcefToGeodetic(void) {
   spacecraft_geodetic_position_.UpdateFromEcef(spacecraft_position_ecef_m_);
-  // Check altitude
-  if (spacecraft_geodetic_position_.GetAltitude_m() < 0.0) {
+  // Check altitude (the geodetic position has a meaning only around the Earth)
+  if (celestial_information_->GetCenterBodyName() == "EARTH" && spacecraft_geodetic_position_.GetAltitude_m() < 0.0) {
     std::cout << "[Error Orbit]: The spacecraft altitude is smaller than zero." << std::endl;
     std::cout << "               The orbit or disturbance setting may have something wrong." << std::endl;
     std::exit(1);
-- 
2.43.0


From 5303bbfe437a804faf55188ccd913701afcdcc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:12 +0000
Subject: [PATCH 061/138] fix: calculate the decimal year from the day of year
 which starts from one

---
 src/math_physics/orbit/sgp4/sgp4ext.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/orbit/sgp4/sgp4ext.cpp b/src/math_physics/orbit/sgp4/sgp4ext.cpp
index 593a93c..b7d2b7c 100644
--- a/src/math_physics/orbit/sgp4/sgp4ext.cpp
+++ b/src/math_physics/orbit/sgp4/sgp4ext.cpp
@@ -750,5 +750,7 @@ void JdToDecyear(double jd, double* decyear) {
     days = temp - ((year - 1900) * 365.0 + leapyrs);
   }
 
-  *decyear = year + days / 365.25;
+  // days is the day of the year which starts from 1.0 at the beginning of the year
+  const bool is_leap_year = ((year % 4 == 0) && (year % 100 != 0)) || (year % 400 == 0);
+  *decyear = year + (days - 1.0) / (is_leap_year ? 366.0 : 365.0);
 }  // end JdToDecyear
-- 
2.43.0


From 81e3e2ac71040eaf212d907765fe58fdaaf10dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:13 +0000
Subject: [PATCH 062/138] fix: give the day of year and the date without offset
 to the NRLMSISE00 model

---
 src/math_physics/atmosphere/wrapper_nrlmsise00.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
index c467efe..51bc332 100644
--- a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
+++ b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
@@ -88,10 +88,7 @@ void ConvertDecyearToDate(double decyear, int* date) {
 
   // month day
   double days_d = reminder * days_per_year;
-  int days = (int)days_d;
-  if (days == 0) {
-    days = 1;
-  }
+  int days = (int)days_d + 1;  // Day of year starts from 1
   reminder = days_d - (int)days_d;
 
   // hours
@@ -129,7 +126,7 @@ double ConvertDateToDecyear(int year, int month, int day) {
     days_month[1] = 29;
   }
 
-  double days = (double)accumulate(days_month, days_month + month - 1, 0) + (double)day;
+  double days = (double)accumulate(days_month, days_month + month - 1, 0) + (double)(day - 1);
 
   return (double)year + days / (double)days_per_year;
 }
@@ -185,7 +182,7 @@ double CalcNRLMSISE00(double decyear, double latrad, double lonrad, double alt,
 
   ConvertDecyearToDate(decyear, date);
 
-  input.doy = (int)((decyear - (int)decyear) * 365.25);
+  input.doy = (int)((decyear - (int)decyear) * (LeapYear((int)decyear) ? 366 : 365)) + 1;  // Day of year starts from 1
   input.year = 0; /* without effect */
   input.sec = date[3] * 60.0 * 60.0 + date[4] * 60.0 + date[5];
   input.alt = alt / 1000.0;
@@ -275,7 +272,7 @@ size_t GetSpaceWeatherTable_(double decyear, double endsec, const string& filena
 
         // After 1.5 month from the update date, the data is updated once per month. So calculate the decimal year of the date
         int days_month[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
-        decyear_monthly = decyear_updated + (days_month[month_updated] + 14) / 365.0;
+        decyear_monthly = decyear_updated + (days_month[month_updated % 12] + 14) / 365.0;
       }
       continue;
     }
-- 
2.43.0


From 0d20542c9f4e1c0c3f2e813fb5d7ad251c5547c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:26 +0000
Subject: [PATCH 063/138] fix: correct the base density at 350 km of the simple
 air density model

---
 src/math_physics/atmosphere/simple_air_density_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/atmosphere/simple_air_density_model.cpp b/src/math_physics/atmosphere/simple_air_density_model.cpp
index 7b89adf..109e33b 100644
--- a/src/math_physics/atmosphere/simple_air_density_model.cpp
+++ b/src/math_physics/atmosphere/simple_air_density_model.cpp
@@ -50,7 +50,7 @@ double CalcAirDensityWithSimpleModel(const double altitude_m) {
   } else if (altitude_km >= 350.0 && altitude_km < 400.0) {
     scale_height_km = 53.298;
     base_height_km = 350.0;
-    base_rho_kg_m3 = 9.158E-12;
+    base_rho_kg_m3 = 9.518E-12;
   } else if (altitude_km >= 300.0 && altitude_km < 350.0) {
     scale_height_km = 53.628;
     base_height_km = 300.0;
-- 
2.43.0


From 369dcfd3787dc0cf46beccc6d31209d8bce06bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 064/138] fix: keep the IGRF magnetic field finite at the poles

---
 src/math_physics/geomagnetic/igrf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math_physics/geomagnetic/igrf.cpp b/src/math_physics/geomagnetic/igrf.cpp
index 32535af..cdb95d5 100644
--- a/src/math_physics/geomagnetic/igrf.cpp
+++ b/src/math_physics/geomagnetic/igrf.cpp
@@ -252,6 +252,9 @@ void mfldg(double alat, double alon, double ahi, double *ax, double *ay, double
     rrm = (re4 * clat2 + rp4 * slat2) / rm2;
     r = sqrt(rrm + 2. * hi * rm + hi * hi);
     cth = slat * (hi + rp2 / rm) / r;
+    /*** avoid the square root of a negative value by rounding error at the poles ***/
+    if (cth > 1.0) cth = 1.0;
+    if (cth < -1.0) cth = -1.0;
     sth = sqrt(1. - cth * cth);
     /*** force sin(colat) non-zero to avoid DIV-by-0 error ***/
     if (sth < 0.00000015) sth = 0.00000015;
-- 
2.43.0


From 2d04b661335c26bc32da58717c3e8bc18fc0265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:49 +0000
Subject: [PATCH 065/138] fix: do not return NaN as the angle between two
 aligned vectors

---
 src/components/real/aocs/star_sensor.cpp            | 2 ++
 src/components/real/aocs/sun_sensor.cpp             | 5 +++--
 src/math_physics/math/vector_template_functions.hpp | 2 ++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index 1ce9315..e1903d3 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -208,6 +208,8 @@ double StarSensor::CalAngleVector_rad(const Vector<3>& vector1, const Vector<3>&
   math::Vector<3> vect2_normal = vector2.CalcNormalizedVector();
 
   double cosTheta = InnerProduct(vect1_normal, vect2_normal);  // Calc cos value
+  if (cosTheta > 1.0) cosTheta = 1.0;
+  if (cosTheta < -1.0) cosTheta = -1.0;
   double theta_rad = acos(cosTheta);
   return theta_rad;
 }
diff --git a/src/components/real/aocs/sun_sensor.cpp b/src/components/real/aocs/sun_sensor.cpp
index ed2dcd9..ac413f4 100644
--- a/src/components/real/aocs/sun_sensor.cpp
+++ b/src/components/real/aocs/sun_sensor.cpp
@@ -5,6 +5,7 @@
 
 #include "sun_sensor.hpp"
 
+#include <algorithm>
 #include <logger/log_utility.hpp>
 #include <math_physics/math/constants.hpp>
 #include <math_physics/randomization/global_randomization.hpp>
@@ -101,7 +102,7 @@ void SunSensor::Measure() {
 void SunSensor::SunDetectionJudgement() {
   math::Vector<3> sun_direction_c = sun_direction_true_c_.CalcNormalizedVector();
 
-  double sun_angle_ = acos(sun_direction_c[2]);
+  double sun_angle_ = acos(std::max(-1.0, std::min(1.0, sun_direction_c[2])));
 
   if (solar_illuminance_W_m2_ < intensity_lower_threshold_percent_ / 100.0 * srp_environment_->GetSolarConstant_W_m2()) {
     sun_detected_flag_ = false;
@@ -116,7 +117,7 @@ void SunSensor::SunDetectionJudgement() {
 
 void SunSensor::CalcSolarIlluminance() {
   math::Vector<3> sun_direction_c = sun_direction_true_c_.CalcNormalizedVector();
-  double sun_angle_ = acos(sun_direction_c[2]);
+  double sun_angle_ = acos(std::max(-1.0, std::min(1.0, sun_direction_c[2])));
 
   if (sun_angle_ > math::pi_2) {
     solar_illuminance_W_m2_ = 0.0;
diff --git a/src/math_physics/math/vector_template_functions.hpp b/src/math_physics/math/vector_template_functions.hpp
index 9b99003..025e180 100644
--- a/src/math_physics/math/vector_template_functions.hpp
+++ b/src/math_physics/math/vector_template_functions.hpp
@@ -143,6 +143,8 @@ Vector<N, double> Vector<N, T>::CalcNormalizedVector() const {
 template <size_t N>
 double CalcAngleTwoVectors_rad(const Vector<N, double>& v1, const Vector<N, double>& v2) {
   double cos = InnerProduct(v1, v2) / (v1.CalcNorm() * v2.CalcNorm());
+  if (cos > 1.0) cos = 1.0;
+  if (cos < -1.0) cos = -1.0;
   return acos(cos);
 }
 
-- 
2.43.0


From 2c7c2de60335a4d116bfa72594159eeb65cfe98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:49 +0000
Subject: [PATCH 066/138] fix: output the star sensor measurement of the
 configured delay

---
 src/components/real/aocs/star_sensor.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index e1903d3..353cc17 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -73,8 +73,7 @@ void StarSensor::Initialize() {
   measured_quaternion_i2c_ = math::Quaternion(0.0, 0.0, 0.0, 1.0);
 
   // Decide delay buffer size
-  max_delay_ = int(output_delay_ * 2 / step_time_s_);
-  if (max_delay_ <= 0) max_delay_ = 1;
+  max_delay_ = int(output_delay_) + 1;  // output_delay_ is the number of samples
   vector<math::Quaternion> temp(max_delay_);
   delay_buffer_ = temp;
   // Initialize delay buffer
@@ -97,7 +96,7 @@ Quaternion StarSensor::Measure(const environment::LocalCelestialInformation* loc
   if (update_count_ == 0) {
     int hist = buffer_position_ - output_delay_ - 1;
     if (hist < 0) {
-      hist = max_delay_ - 1;
+      hist += max_delay_;
     }
     measured_quaternion_i2c_ = delay_buffer_[hist];
   }
-- 
2.43.0


From 409163862b9860f5ef6673daaaac4e06f3a268b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:49 +0000
Subject: [PATCH 067/138] fix: use the tangent angle of the Earth in the star
 sensor exclusion

---
 src/components/real/aocs/star_sensor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/components/real/aocs/star_sensor.cpp b/src/components/real/aocs/star_sensor.cpp
index 353cc17..e54f5bb 100644
--- a/src/components/real/aocs/star_sensor.cpp
+++ b/src/components/real/aocs/star_sensor.cpp
@@ -154,8 +154,7 @@ int StarSensor::SunJudgement(const math::Vector<3>& sun_b) {
 int StarSensor::EarthJudgement(const math::Vector<3>& earth_b) {
   math::Quaternion q_c2b = quaternion_b2c_.Conjugate();
   math::Vector<3> sight_b = q_c2b.FrameConversion(sight_direction_c_);
-  double earth_size_rad = atan2(environment::earth_equatorial_radius_m,
-                                earth_b.CalcNorm());                      // angles between sat<->earth_center & sat<->earth_edge
+  double earth_size_rad = asin(std::min(1.0, environment::earth_equatorial_radius_m / earth_b.CalcNorm()));  // angles between sat<->earth_center & sat<->earth_edge
   double earth_center_angle_rad = CalAngleVector_rad(earth_b, sight_b);   // angles between sat<->earth_center & sat_sight
   double earth_edge_angle_rad = earth_center_angle_rad - earth_size_rad;  // angles between sat<->earth_edge & sat_sight
   if (earth_edge_angle_rad < earth_forbidden_angle_rad_)
-- 
2.43.0


From 5b0f1af20cdca8145b2106d3aa00aa3cbf4c94ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:49 +0000
Subject: [PATCH 068/138] fix: judge the sun detection with the current
 illuminance

---
 src/components/real/aocs/sun_sensor.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/components/real/aocs/sun_sensor.cpp b/src/components/real/aocs/sun_sensor.cpp
index ac413f4..b828d23 100644
--- a/src/components/real/aocs/sun_sensor.cpp
+++ b/src/components/real/aocs/sun_sensor.cpp
@@ -68,6 +68,7 @@ void SunSensor::Measure() {
 
   sun_direction_true_c_ = quaternion_b2c_.FrameConversion(sun_dir_b);  // Frame conversion from body to component
 
+  CalcSolarIlluminance();   // The detection depends on the current illuminance
   SunDetectionJudgement();  // Judge the sun is inside the FoV
 
   if (sun_detected_flag_) {
@@ -95,8 +96,6 @@ void SunSensor::Measure() {
     alpha_rad_ = 0.0;
     beta_rad_ = 0.0;
   }
-
-  CalcSolarIlluminance();
 }
 
 void SunSensor::SunDetectionJudgement() {
-- 
2.43.0


From eb46b7f70ea4f78829b2ce657cba741b96f48ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:49 +0000
Subject: [PATCH 069/138] fix: do not add a star for the end of the catalogue
 file

---
 src/environment/global/hipparcos_catalogue.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/environment/global/hipparcos_catalogue.cpp b/src/environment/global/hipparcos_catalogue.cpp
index 8888085..eea0027 100644
--- a/src/environment/global/hipparcos_catalogue.cpp
+++ b/src/environment/global/hipparcos_catalogue.cpp
@@ -32,11 +32,10 @@ bool HipparcosCatalogue::ReadContents(const std::string& file_name, const char d
 
   std::string title;
   ifs >> title;  // Skip title
-  while (!ifs.eof()) {
+  std::string line;
+  while (ifs >> line) {
     HipparcosData hipparcos_data;
 
-    std::string line;
-    ifs >> line;
     std::replace(line.begin(), line.end(), delimiter, ' ');  // Convert delimiter as space for stringstream
     std::istringstream streamline(line);
 
-- 
2.43.0


From 12ddf002a858a11603e8d84460a346e404eba9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:49 +0000
Subject: [PATCH 070/138] fix: do not read the star catalogue beyond its end

---
 src/components/real/mission/telescope.cpp | 34 +++++++++++------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/components/real/mission/telescope.cpp b/src/components/real/mission/telescope.cpp
index cf17359..381e6c5 100644
--- a/src/components/real/mission/telescope.cpp
+++ b/src/components/real/mission/telescope.cpp
@@ -121,6 +121,23 @@ void Telescope::ObserveStars() {
   size_t count = 0;            // Counter for while loop
 
   while (star_list_in_sight.size() < number_of_logged_stars_) {
+    // If read all catalogue, fill -1 and break the loop
+    if (count >= hipparcos_->GetCatalogueSize()) {
+      while (star_list_in_sight.size() < number_of_logged_stars_) {
+        Star star;
+        star.hipparcos_data.hipparcos_id = -1;
+        star.hipparcos_data.visible_magnitude = -1;
+        star.hipparcos_data.right_ascension_deg = -1;
+        star.hipparcos_data.declination_deg = -1;
+        star.position_image_sensor[0] = -1;
+        star.position_image_sensor[1] = -1;
+
+        star_list_in_sight.push_back(star);
+      }
+
+      break;
+    }
+
     math::Vector<3> target_b = hipparcos_->GetStarDirection_b(count, quaternion_i2b);
     math::Vector<3> target_c = quaternion_b2c_.FrameConversion(target_b);
 
@@ -140,23 +157,6 @@ void Telescope::ObserveStars() {
     }
 
     count++;
-
-    // If read all catalogue, fill -1 and break the loop
-    if (count >= hipparcos_->GetCatalogueSize()) {
-      while (star_list_in_sight.size() < number_of_logged_stars_) {
-        Star star;
-        star.hipparcos_data.hipparcos_id = -1;
-        star.hipparcos_data.visible_magnitude = -1;
-        star.hipparcos_data.right_ascension_deg = -1;
-        star.hipparcos_data.declination_deg = -1;
-        star.position_image_sensor[0] = -1;
-        star.position_image_sensor[1] = -1;
-
-        star_list_in_sight.push_back(star);
-      }
-
-      break;
-    }
   }
 }
 
-- 
2.43.0


From e125539add9de466c8de2567362b6993fb7075d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:26 +0000
Subject: [PATCH 071/138] fix: shuffle the random numbers of the noise sources

---
 ...imal_standard_linear_congruential_generator_with_shuffle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp b/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
index 3bdd51d..0deece8 100644
--- a/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
+++ b/src/math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp
@@ -31,7 +31,7 @@ void MinimalStandardLcgWithShuffle::Initialize() {
 MinimalStandardLcgWithShuffle::operator double() {
   double out = mixing_table_[table_position_];
   mixing_table_[table_position_] = minimal_lcg_;  // Compensate next random value
-  table_position_ = (size_t)out * MinimalStandardLcg::kM;
+  table_position_ = (size_t)(out * MinimalStandardLcg::kM);
   table_position_ %= kTableSize;  // y <- [0 : kTableSize-1]
 
   return out;
-- 
2.43.0


From 60c3e2240b05b1ef42adace86e2746e10750c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 072/138] fix: keep the ordered magnetic moment apart from the
 produced one

The order was overwritten by the output, so the bias, noise and scale
factor of a magnetorquer compounded at every step while an order was held.
---
 src/components/real/aocs/magnetorquer.cpp | 2 ++
 src/components/real/aocs/magnetorquer.hpp | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/components/real/aocs/magnetorquer.cpp b/src/components/real/aocs/magnetorquer.cpp
index bda5f1b..d671e45 100644
--- a/src/components/real/aocs/magnetorquer.cpp
+++ b/src/components/real/aocs/magnetorquer.cpp
@@ -67,12 +67,14 @@ void Magnetorquer::MainRoutine(const int time_count) {
 
 void Magnetorquer::PowerOffRoutine() {
   torque_b_Nm_ *= 0.0;
+  ordered_magnetic_moment_c_Am2_ *= 0.0;
   output_magnetic_moment_c_Am2_ *= 0.0;
   output_magnetic_moment_b_Am2_ *= 0.0;
 }
 
 math::Vector<kMtqDimension> Magnetorquer::CalcOutputTorque(void) {
   for (size_t i = 0; i < kMtqDimension; ++i) {
+    output_magnetic_moment_c_Am2_[i] = ordered_magnetic_moment_c_Am2_[i];
     // Limit Check
     if (output_magnetic_moment_c_Am2_[i] > max_magnetic_moment_c_Am2_[i]) {
       output_magnetic_moment_c_Am2_[i] = max_magnetic_moment_c_Am2_[i];
diff --git a/src/components/real/aocs/magnetorquer.hpp b/src/components/real/aocs/magnetorquer.hpp
index 0ef0a5e..48497b6 100644
--- a/src/components/real/aocs/magnetorquer.hpp
+++ b/src/components/real/aocs/magnetorquer.hpp
@@ -108,7 +108,7 @@ class Magnetorquer : public Component, public logger::ILoggable {
    * @fn SetOutputMagneticMoment_c_Am2
    * @brief Set output magnetic moment in the component frame [Am2]
    */
-  inline void SetOutputMagneticMoment_c_Am2(const math::Vector<kMtqDimension> mag_moment_c) { output_magnetic_moment_c_Am2_ = mag_moment_c; };
+  inline void SetOutputMagneticMoment_c_Am2(const math::Vector<kMtqDimension> mag_moment_c) { ordered_magnetic_moment_c_Am2_ = mag_moment_c; };
 
   /**
    * @fn SetOutputMagneticMoment_b_Am2
@@ -126,6 +126,7 @@ class Magnetorquer : public Component, public logger::ILoggable {
   const int component_id_ = 0;                                     //!< Actuator ID
   const double kConvertNanoT2T = 1.0e-9;                           //!< Constant to convert nT to T
   math::Vector<kMtqDimension> torque_b_Nm_{0.0};                   //!< Output torque in the body fixed frame [Nm]
+  math::Vector<kMtqDimension> ordered_magnetic_moment_c_Am2_{0.0};  //!< Ordered magnetic moment in the component frame [Am2]
   math::Vector<kMtqDimension> output_magnetic_moment_c_Am2_{0.0};  //!< Output output magnetic moment in the component frame [Am2]
   math::Vector<kMtqDimension> output_magnetic_moment_b_Am2_{0.0};  //!< Output output magnetic moment in the body fixed frame [Am2]
   math::Quaternion quaternion_b2c_{0.0, 0.0, 0.0, 1.0};            //!< Quaternion from body frame to component frame
-- 
2.43.0


From 68221c3ea28ac894bbbb24006a5fb13335b44777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 073/138] fix: normalise the axis of the direction error of
 ideal generators

The quaternion of the direction error was not of unit length, so the
direction error changed the magnitude of the generated force or torque
and was smaller than configured.
---
 src/components/ideal/force_generator.cpp  | 2 ++
 src/components/ideal/torque_generator.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/components/ideal/force_generator.cpp b/src/components/ideal/force_generator.cpp
index ae0b1c7..ab14681 100644
--- a/src/components/ideal/force_generator.cpp
+++ b/src/components/ideal/force_generator.cpp
@@ -101,6 +101,8 @@ math::Quaternion ForceGenerator::GenerateDirectionNoiseQuaternion(math::Vector<3
   if (norm_rotation_axis < 0.0 + DBL_EPSILON) {
     // No rotation error if the randomized direction is parallel to the true direction
     rotation_axis = true_direction;
+  } else {
+    rotation_axis = rotation_axis.CalcNormalizedVector();
   }
 
   double error_angle_rad = direction_noise_ * error_standard_deviation_rad;
diff --git a/src/components/ideal/torque_generator.cpp b/src/components/ideal/torque_generator.cpp
index fd0a0a3..7f3d155 100644
--- a/src/components/ideal/torque_generator.cpp
+++ b/src/components/ideal/torque_generator.cpp
@@ -75,6 +75,8 @@ math::Quaternion TorqueGenerator::GenerateDirectionNoiseQuaternion(math::Vector<
   if (norm_rotation_axis < 0.0 + DBL_EPSILON) {
     // No rotation error if the randomized direction is parallel to the true direction
     rotation_axis = true_direction;
+  } else {
+    rotation_axis = rotation_axis.CalcNormalizedVector();
   }
 
   double error_angle_rad = direction_noise_ * error_standard_deviation_rad;
-- 
2.43.0


From 1b5be8bc1d534ae6a625beedd239b95d835ff108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 074/138] fix: rotate the thrust about an axis orthogonal to
 its direction

The error rotation was built from the x axis, so a thruster along the
x axis had no direction error and other thrusters had a smaller one than
configured.
---
 src/components/real/propulsion/simple_thruster.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/components/real/propulsion/simple_thruster.cpp b/src/components/real/propulsion/simple_thruster.cpp
index e2f502f..99195d1 100644
--- a/src/components/real/propulsion/simple_thruster.cpp
+++ b/src/components/real/propulsion/simple_thruster.cpp
@@ -5,6 +5,7 @@
 #include "simple_thruster.hpp"
 
 #include <cfloat>
+#include <cmath>
 #include <math_physics/math/constants.hpp>
 #include <math_physics/randomization/global_randomization.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
@@ -126,10 +127,10 @@ double SimpleThruster::CalcThrustMagnitude() {
 math::Vector<3> SimpleThruster::CalcThrustDirection() {
   math::Vector<3> thrust_dir_b_true = thrust_direction_b_;
   if (direction_noise_standard_deviation_rad_ > 0.0 + DBL_EPSILON) {
-    math::Vector<3> ex;  // Fixme: to use outer product to generate orthogonal vector
-    ex[0] = 1.0;
-    ex[1] = 0.0;
-    ex[2] = 0.0;
+    // A unit vector orthogonal to the thrust direction
+    math::Vector<3> ex{0.0};
+    ex[(std::fabs(thrust_dir_b_true[0]) < 0.5) ? 0 : 1] = 1.0;
+    ex = OuterProduct(thrust_dir_b_true, ex).CalcNormalizedVector();
     double make_axis_rot_rad = math::pi * (2.0 * (double)direction_axis_randomizer_ - 1.0);
 
     math::Quaternion make_axis_rot(thrust_dir_b_true, make_axis_rot_rad);
-- 
2.43.0


From 1e0dd644013211f622e19745c170167b412970f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 075/138] fix: add the thrust error only while thrust is
 produced

The magnitude error was added from the moment of the command, so a
thruster thrust by its error alone during its dead time, and without any
error while the thrust of an earlier command was still being produced.
---
 src/components/real/propulsion/simple_thruster.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/propulsion/simple_thruster.cpp b/src/components/real/propulsion/simple_thruster.cpp
index 99195d1..0dc5260 100644
--- a/src/components/real/propulsion/simple_thruster.cpp
+++ b/src/components/real/propulsion/simple_thruster.cpp
@@ -81,7 +81,7 @@ void SimpleThruster::PowerOffRoutine() {
 
 void SimpleThruster::CalcThrust() {
   double mag = CalcThrustMagnitude();
-  if (duty_ > 0.0 + DBL_EPSILON) mag += magnitude_random_noise_;
+  if (mag > 0.0 + DBL_EPSILON) mag += magnitude_random_noise_;
   output_thrust_b_N_ = mag * CalcThrustDirection();
 }
 
-- 
2.43.0


From c69b12831efd7ee5ca78d53e3bfab52fba5716c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 076/138] fix: report the angular momentum of a wheel from the
 beginning

The angular momentum of a wheel that starts with a speed was zero until
its first powered step, and stayed zero while the wheel had no power.
---
 src/components/real/aocs/reaction_wheel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index 11b48c1..eccc713 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -80,6 +80,7 @@ void ReactionWheel::Initialize() {
 
   angular_velocity_rad_s_ = ode_angular_velocity_.GetAngularVelocity_rad_s();
   angular_velocity_rpm_ = angular_velocity_rad_s_ * math::rad_s_to_rpm;
+  angular_momentum_b_Nms_ = rotor_inertia_kgm2_ * angular_velocity_rad_s_ * rotation_axis_b_;
 
   // Turn on RW jitter calculation
   if (is_calculated_jitter_) {
-- 
2.43.0


From b76ec674d1f0194bcc6c08f2dea224f25d80fe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 077/138] fix: do not reverse a coasting wheel by its friction

---
 src/components/real/aocs/reaction_wheel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index eccc713..17a9cc1 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -4,6 +4,7 @@
  */
 #include "reaction_wheel.hpp"
 
+#include <algorithm>
 #include <fstream>
 #include <iostream>
 #include <math_physics/math/constants.hpp>
@@ -129,6 +130,8 @@ math::Vector<3> ReactionWheel::CalcTorque() {
     } else if (angular_velocity_rad_s_ > 0.0) {
       rotation_direction = -1.0;
     }
+    // The friction stops the rotation but does not reverse it
+    coasting_acceleration_rad_s2 = std::min(coasting_acceleration_rad_s2, abs_angular_velocity_rad_s / step_width_s_);
 
     double angular_acceleration_rad_s2 = coasting_acceleration_rad_s2 * rotation_direction;
     ode_angular_velocity_.SetAngularAcceleration_rad_s2(angular_acceleration_rad_s2);
-- 
2.43.0


From e5c2c6ad1c24750a7ee81b9d32fa27d3a78ab9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:06 +0000
Subject: [PATCH 078/138] fix: clear the jitter of a wheel without power

The last jitter before the power was cut stayed in the output torque, so
a wheel without power applied a constant torque to the body.
---
 src/components/real/aocs/reaction_wheel.cpp     |  1 +
 .../real/aocs/reaction_wheel_jitter.cpp         | 17 +++++++++++++++++
 .../real/aocs/reaction_wheel_jitter.hpp         |  5 +++++
 3 files changed, 23 insertions(+)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index 17a9cc1..25e93e2 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -99,6 +99,7 @@ void ReactionWheel::PowerOffRoutine() {
   std::fill(acceleration_delay_buffer_.begin(), acceleration_delay_buffer_.end(), 0.0);
   generated_angular_acceleration_rad_s2_ = 0.0;
   output_torque_b_Nm_ *= 0.0;
+  if (is_calculated_jitter_) rw_jitter_.ClearJitter();
 }
 
 // Jitter calculation
diff --git a/src/components/real/aocs/reaction_wheel_jitter.cpp b/src/components/real/aocs/reaction_wheel_jitter.cpp
index b1135bc..b074d55 100644
--- a/src/components/real/aocs/reaction_wheel_jitter.cpp
+++ b/src/components/real/aocs/reaction_wheel_jitter.cpp
@@ -84,6 +84,23 @@ void ReactionWheelJitter::CalcJitter(double angular_velocity_rad) {
   }
 }
 
+void ReactionWheelJitter::ClearJitter() {
+  unfiltered_jitter_force_n_c_ *= 0.0;
+  unfiltered_jitter_force_n_1_c_ *= 0.0;
+  unfiltered_jitter_force_n_2_c_ *= 0.0;
+  unfiltered_jitter_torque_n_c_ *= 0.0;
+  unfiltered_jitter_torque_n_1_c_ *= 0.0;
+  unfiltered_jitter_torque_n_2_c_ *= 0.0;
+  filtered_jitter_force_n_c_ *= 0.0;
+  filtered_jitter_force_n_1_c_ *= 0.0;
+  filtered_jitter_force_n_2_c_ *= 0.0;
+  filtered_jitter_torque_n_c_ *= 0.0;
+  filtered_jitter_torque_n_1_c_ *= 0.0;
+  filtered_jitter_torque_n_2_c_ *= 0.0;
+  jitter_force_b_N_ *= 0.0;
+  jitter_torque_b_Nm_ *= 0.0;
+}
+
 void ReactionWheelJitter::AddStructuralResonance() {
   // Solve difference equations
   for (int i = 0; i < 3; i++) {
diff --git a/src/components/real/aocs/reaction_wheel_jitter.hpp b/src/components/real/aocs/reaction_wheel_jitter.hpp
index f926754..4e8c022 100644
--- a/src/components/real/aocs/reaction_wheel_jitter.hpp
+++ b/src/components/real/aocs/reaction_wheel_jitter.hpp
@@ -52,6 +52,11 @@ class ReactionWheelJitter {
    * @param [in] angular_velocity_rad: Current angular velocity of RW [rad/s]
    */
   void CalcJitter(double angular_velocity_rad);
+  /**
+   * @fn ClearJitter
+   * @brief Clear the jitter and the state of the structural resonance
+   */
+  void ClearJitter();
 
   /**
    * @fn GetJitterForce_b_N
-- 
2.43.0


From be47e5b3699406b0de5961e8ab1b8499b6f297aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:04 +0000
Subject: [PATCH 079/138] fix: use the intermediate temperatures in the thermal
 integration

The derivatives ignored the temperatures they were asked for, so every
stage of the Runge-Kutta method used the temperatures of the beginning of
the step and the integration was only of first order.
---
 src/dynamics/thermal/temperature.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/dynamics/thermal/temperature.cpp b/src/dynamics/thermal/temperature.cpp
index 46a39b0..dcc11a6 100644
--- a/src/dynamics/thermal/temperature.cpp
+++ b/src/dynamics/thermal/temperature.cpp
@@ -10,7 +10,6 @@
 #include <environment/global/physical_constants.hpp>
 #include <environment/global/simulation_time.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
-#include <utilities/macros.hpp>
 
 using namespace std;
 
@@ -138,9 +137,6 @@ void Temperature::CalcRungeOneStep(double time_now_s, double time_step_s, const
 
 vector<double> Temperature::CalcTemperatureDifferentials(vector<double> temperatures_K, double t,
                                                          const environment::LocalCelestialInformation* local_celestial_information, size_t node_num) {
-  // TODO: consider the following unused arguments are really needed
-  UNUSED(temperatures_K);
-
   math::Vector<3> sun_direction_b = local_celestial_information->GetPositionFromSpacecraft_b_m("SUN").CalcNormalizedVector();
   vector<double> differentials_K_s(node_num);
   for (size_t i = 0; i < node_num; i++) {
@@ -167,9 +163,9 @@ vector<double> Temperature::CalcTemperatureDifferentials(vector<double> temperat
       double conductive_heat_input_W = 0;
       double radiative_heat_input_W = 0;
       for (size_t j = 0; j < node_num; j++) {
-        conductive_heat_input_W += conductance_matrix_W_K_[i][j] * (nodes_[j].GetTemperature_K() - nodes_[i].GetTemperature_K());
+        conductive_heat_input_W += conductance_matrix_W_K_[i][j] * (temperatures_K[j] - temperatures_K[i]);
         radiative_heat_input_W += environment::stefan_boltzmann_constant_W_m2K4 * radiation_matrix_m2_[i][j] *
-                                  (pow(nodes_[j].GetTemperature_K(), 4) - pow(nodes_[i].GetTemperature_K(), 4));
+                                  (pow(temperatures_K[j], 4) - pow(temperatures_K[i], 4));
       }
       double total_heat_input_W = conductive_heat_input_W + radiative_heat_input_W + total_heatload_W;
       differentials_K_s[i] = total_heat_input_W / nodes_[i].GetCapacity_J_K();
-- 
2.43.0


From f97aab4d35daba818636dd5083c87fde3d6de4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:04 +0000
Subject: [PATCH 080/138] fix: start the table of internal heat loads again
 after its end

The index into the table was not reset when the elapsed time passed the
end of the table, so all later loads were extrapolated from the last
segment.
---
 src/dynamics/thermal/heatload.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/dynamics/thermal/heatload.cpp b/src/dynamics/thermal/heatload.cpp
index 29b8cdb..0c06150 100644
--- a/src/dynamics/thermal/heatload.cpp
+++ b/src/dynamics/thermal/heatload.cpp
@@ -45,11 +45,12 @@ void Heatload::SetElapsedTime_s(double elapsed_time_s) {
   elapsed_time_s_ = elapsed_time_s;
   residual_elapsed_time_s_ = fmod(elapsed_time_s_, time_table_period_s_);
 
-  while (residual_elapsed_time_s_ > time_table_s_[elapsed_time_idx_ + 1]) {
+  // Start again when the time has passed the end of the table
+  if (residual_elapsed_time_s_ < time_table_s_[elapsed_time_idx_]) {
+    elapsed_time_idx_ = 0;
+  }
+  while (elapsed_time_idx_ + 2 < time_table_s_.size() && residual_elapsed_time_s_ > time_table_s_[elapsed_time_idx_ + 1]) {
     elapsed_time_idx_++;
-    if (elapsed_time_idx_ > time_table_s_.size() - 1) {
-      elapsed_time_idx_ = 0;
-    }
   }
 }
 
-- 
2.43.0


From 640a329675f0db14a18ac358ec00b6ed09a91614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:04 +0000
Subject: [PATCH 081/138] fix: keep the view factor of a surface that faces the
 Earth exactly

Rounding can make the cosine of the angle to the Earth slightly larger
than one, and the surface then received no albedo and infrared radiation.
---
 src/dynamics/thermal/node.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/thermal/node.cpp b/src/dynamics/thermal/node.cpp
index c6189e5..cc5fdc3 100644
--- a/src/dynamics/thermal/node.cpp
+++ b/src/dynamics/thermal/node.cpp
@@ -5,6 +5,7 @@
 
 #include "node.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <cmath>
 #include <environment/global/physical_constants.hpp>
@@ -54,7 +55,7 @@ double Node::CalcAlbedoRadiation_W(math::Vector<3> earth_position_b_m, math::Vec
   math::Vector<3> vec_b = (sat2sun_direction_b - sat2earth_direction_b).CalcNormalizedVector();
 
   const double cos_theta = InnerProduct(vec_a, vec_b);
-  const double lamda = acos(InnerProduct(sat2earth_direction_b, normal_vector_b_));
+  const double lamda = acos(std::clamp(InnerProduct(sat2earth_direction_b, normal_vector_b_), -1.0, 1.0));
   const double h = earth_position_b_m.CalcNorm() - environment::earth_equatorial_radius_m;
   const double H = earth_position_b_m.CalcNorm() / environment::earth_equatorial_radius_m;
   const double phi_m = asin(1.0 / H);
@@ -98,7 +99,7 @@ double Node::CalcAlbedoRadiation_W(math::Vector<3> earth_position_b_m, math::Vec
 double Node::CalcEarthInfraredRadiation_W(math::Vector<3> earth_position_b_m, double earth_infrared_W_m2) {
   math::Vector<3> earth_direction_b = earth_position_b_m.CalcNormalizedVector();
 
-  const double lamda = acos(InnerProduct(earth_direction_b, normal_vector_b_));
+  const double lamda = acos(std::clamp(InnerProduct(earth_direction_b, normal_vector_b_), -1.0, 1.0));
   const double h = earth_position_b_m.CalcNorm() - environment::earth_equatorial_radius_m;
   const double H = earth_position_b_m.CalcNorm() / environment::earth_equatorial_radius_m;
   const double phi_m = asin(1.0 / H);
-- 
2.43.0


From 113f3b6c1fa0617e520cf93268ae83414efc95f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:18 +0000
Subject: [PATCH 082/138] fix: advance the GNSS interpolation window as far as
 the time has advanced

---
 src/environment/global/gnss_satellites.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 25724b5..1b4cdc2 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -69,8 +69,9 @@ void GnssSatellites::Update(const SimulationTime& simulation_time) {
   // Check interpolation update
   double diff_s = current_epoch_time_.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
   double medium_time_s = orbit_[0].GetTimeList()[4];
-  if (diff_s > medium_time_s) {
-    UpdateInterpolationInformation();
+  while (diff_s > medium_time_s) {
+    if (!UpdateInterpolationInformation()) break;
+    medium_time_s = orbit_[0].GetTimeList()[4];
   }
 
   return;
-- 
2.43.0


From 3055ba43acb373649c7ba8a3ba3ebce9c451f376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:40 +0000
Subject: [PATCH 083/138] fix: return no GNSS information for ids and times
 without products

---
 src/environment/global/gnss_satellites.cpp | 12 ++++++++++--
 src/environment/global/gnss_satellites.hpp |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 1b4cdc2..4a049cd 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -25,6 +25,11 @@ void GnssSatellites::Initialize(const std::vector<Sp3FileReader>& sp3_files, con
   sp3_files_ = sp3_files;
   current_epoch_time_ = start_time;
 
+  if (sp3_files_.empty()) {
+    std::cout << "[Error] GNSS satellites: No SP3 file." << std::endl;
+    return;
+  }
+
   // Get the initialize SP3 file
   Sp3FileReader initial_sp3_file = sp3_files_[0];
   if (!GetCurrentSp3File(initial_sp3_file, start_time)) {
@@ -66,6 +71,9 @@ void GnssSatellites::Update(const SimulationTime& simulation_time) {
                                           (size_t)current_utc.minute, current_utc.second);
   current_epoch_time_ = time_system::EpochTime(current_date_time);
 
+  // No information when the initialization failed
+  if (orbit_.empty()) return;
+
   // Check interpolation update
   double diff_s = current_epoch_time_.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
   double medium_time_s = orbit_[0].GetTimeList()[4];
@@ -78,7 +86,7 @@ void GnssSatellites::Update(const SimulationTime& simulation_time) {
 }
 
 math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t gnss_satellite_id, const time_system::EpochTime time) const {
-  if (gnss_satellite_id > number_of_calculated_gnss_satellites_) return math::Vector<3>(0.0);
+  if (gnss_satellite_id >= number_of_calculated_gnss_satellites_) return math::Vector<3>(0.0);
 
   time_system::EpochTime target_time;
 
@@ -96,7 +104,7 @@ math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t gnss_satellite_i
 }
 
 double GnssSatellites::GetClock_s(const size_t gnss_satellite_id, const time_system::EpochTime time) const {
-  if (gnss_satellite_id > number_of_calculated_gnss_satellites_) return 0.0;
+  if (gnss_satellite_id >= number_of_calculated_gnss_satellites_) return 0.0;
 
   time_system::EpochTime target_time;
 
diff --git a/src/environment/global/gnss_satellites.hpp b/src/environment/global/gnss_satellites.hpp
index 065dc58..9a10f77 100644
--- a/src/environment/global/gnss_satellites.hpp
+++ b/src/environment/global/gnss_satellites.hpp
@@ -116,8 +116,8 @@ class GnssSatellites : public logger::ILoggable {
   bool is_calc_enabled_ = false;  //!< Flag to manage the GNSS satellite position calculation
 
   std::vector<gnss::Sp3FileReader> sp3_files_;   //!< List of SP3 files
-  size_t number_of_calculated_gnss_satellites_;  //!< Number of calculated GNSS satellites
-  size_t sp3_file_id_;                           //!< Current SP3 file ID
+  size_t number_of_calculated_gnss_satellites_ = 0;  //!< Number of calculated GNSS satellites
+  size_t sp3_file_id_ = 0;                           //!< Current SP3 file ID
   time_system::EpochTime reference_time_;        //!< Reference start time of the SP3 handling
   size_t reference_interpolation_id_ = 0;        //!< Reference epoch ID of the interpolation
   time_system::EpochTime current_epoch_time_;    //!< The last updated time
-- 
2.43.0


From 6925e5909e8da335a4ef00eb266950353666c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:40 +0000
Subject: [PATCH 084/138] fix: do not read GNSS products behind the last file

---
 src/environment/global/gnss_satellites.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 4a049cd..16a5045 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -44,6 +44,13 @@ void GnssSatellites::Initialize(const std::vector<Sp3FileReader>& sp3_files, con
   if (nearest_epoch_id >= half_interpolation_number) {
     reference_interpolation_id_ = nearest_epoch_id - half_interpolation_number;
   }
+  // Use the last epochs when the following epochs are not enough
+  if (sp3_file_id_ + 1 == sp3_files_.size()) {
+    const size_t number_of_epoch = initial_sp3_file.GetNumberOfEpoch();
+    if (reference_interpolation_id_ + kNumberOfInterpolation > number_of_epoch) {
+      reference_interpolation_id_ = number_of_epoch > kNumberOfInterpolation ? number_of_epoch - kNumberOfInterpolation : 0;
+    }
+  }
   reference_time_ = time_system::EpochTime(initial_sp3_file.GetEpochData(reference_interpolation_id_));
 
   // Initialize orbit
@@ -137,7 +144,8 @@ bool GnssSatellites::GetCurrentSp3File(Sp3FileReader& current_sp3_file, const ti
 }
 
 bool GnssSatellites::UpdateInterpolationInformation() {
-  Sp3FileReader sp3_file = sp3_files_[sp3_file_id_];
+  if (sp3_file_id_ >= sp3_files_.size()) return false;
+  Sp3FileReader& sp3_file = sp3_files_[sp3_file_id_];
 
   for (size_t gnss_id = 0; gnss_id < number_of_calculated_gnss_satellites_; gnss_id++) {
     time_system::EpochTime sp3_time = time_system::EpochTime(sp3_file.GetEpochData(reference_interpolation_id_));
-- 
2.43.0


From 6974933ecb9c07cbd952b8e71d7458055a2bfd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 085/138] fix: return no GNSS information for times out of the
 products

---
 src/environment/global/gnss_satellites.cpp | 11 +++++++++--
 src/environment/global/gnss_satellites.hpp |  8 ++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 16a5045..050125f 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -104,7 +104,7 @@ math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t gnss_satellite_i
   }
 
   double diff_s = target_time.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
-  if (diff_s < 0.0 || diff_s > 1e6) return math::Vector<3>(0.0);
+  if (!IsInInterpolationRange(diff_s)) return math::Vector<3>(0.0);
 
   const double kOrbitalPeriodCorrection_s = 24 * 60 * 60 * 1.003;  // See http://acc.igs.org/orbits/orbit-interp_gpssoln03.pdf
   return orbit_[gnss_satellite_id].CalcPositionWithTrigonometric(diff_s, math::tau / kOrbitalPeriodCorrection_s);
@@ -122,11 +122,18 @@ double GnssSatellites::GetClock_s(const size_t gnss_satellite_id, const time_sys
   }
 
   double diff_s = target_time.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
-  if (diff_s < 0.0 || diff_s > 1e6) return 0.0;
+  if (!IsInInterpolationRange(diff_s)) return 0.0;
 
   return clock_[gnss_satellite_id].CalcPolynomial(diff_s) * 1e-6;
 }
 
+bool GnssSatellites::IsInInterpolationRange(const double time_s) const {
+  const std::vector<double> time_list_s = orbit_[0].GetTimeList();
+  // An epoch is valid until the next epoch
+  const double interval_s = (time_list_s.back() - time_list_s.front()) / (double)(time_list_s.size() - 1);
+  return time_s >= time_list_s.front() && time_s <= time_list_s.back() + interval_s;
+}
+
 bool GnssSatellites::GetCurrentSp3File(Sp3FileReader& current_sp3_file, const time_system::EpochTime current_time) {
   for (size_t i = 0; i < sp3_files_.size(); i++) {
     time_system::EpochTime sp3_start_time(sp3_files_[i].GetStartEpochDateTime());
diff --git a/src/environment/global/gnss_satellites.hpp b/src/environment/global/gnss_satellites.hpp
index 9a10f77..467335d 100644
--- a/src/environment/global/gnss_satellites.hpp
+++ b/src/environment/global/gnss_satellites.hpp
@@ -137,6 +137,14 @@ class GnssSatellites : public logger::ILoggable {
    */
   bool GetCurrentSp3File(gnss::Sp3FileReader& current_sp3_file, const time_system::EpochTime current_time);
 
+  /**
+   * @fn IsInInterpolationRange
+   * @brief Check the time is covered by the data in the interpolation
+   * @param [in] time_s: Time from the reference time [s]
+   * @return true means the time is in the range
+   */
+  bool IsInInterpolationRange(const double time_s) const;
+
   /**
    * @fn UpdateInterpolationInformation
    * @brief Update interpolation information by inserting new data
-- 
2.43.0


From 0342aea970f17c6acdb8386eddd8665a914047ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 086/138] fix: do not interpolate bad data and data of other
 satellites in GNSS products

---
 src/environment/global/gnss_satellites.cpp | 39 +++++++++++++++++++---
 src/environment/global/gnss_satellites.hpp |  4 +++
 2 files changed, 38 insertions(+), 5 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 050125f..67ec06b 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -5,6 +5,8 @@
 
 #include "gnss_satellites.hpp"
 
+#include <algorithm>
+#include <cmath>
 #include <math_physics/gnss/igs_product_name_handling.hpp>
 #include <math_physics/gnss/sp3_file_reader.hpp>
 
@@ -53,6 +55,10 @@ void GnssSatellites::Initialize(const std::vector<Sp3FileReader>& sp3_files, con
   }
   reference_time_ = time_system::EpochTime(initial_sp3_file.GetEpochData(reference_interpolation_id_));
 
+  satellite_ids_ = initial_sp3_file.GetHeader().satellite_ids_;
+  number_of_valid_positions_.assign(number_of_calculated_gnss_satellites_, 0);
+  number_of_valid_clocks_.assign(number_of_calculated_gnss_satellites_, 0);
+
   // Initialize orbit
   orbit_.assign(number_of_calculated_gnss_satellites_, orbit::InterpolationOrbit(kNumberOfInterpolation));
 
@@ -105,6 +111,7 @@ math::Vector<3> GnssSatellites::GetPosition_ecef_m(const size_t gnss_satellite_i
 
   double diff_s = target_time.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
   if (!IsInInterpolationRange(diff_s)) return math::Vector<3>(0.0);
+  if (number_of_valid_positions_[gnss_satellite_id] < kNumberOfInterpolation) return math::Vector<3>(0.0);
 
   const double kOrbitalPeriodCorrection_s = 24 * 60 * 60 * 1.003;  // See http://acc.igs.org/orbits/orbit-interp_gpssoln03.pdf
   return orbit_[gnss_satellite_id].CalcPositionWithTrigonometric(diff_s, math::tau / kOrbitalPeriodCorrection_s);
@@ -123,6 +130,7 @@ double GnssSatellites::GetClock_s(const size_t gnss_satellite_id, const time_sys
 
   double diff_s = target_time.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
   if (!IsInInterpolationRange(diff_s)) return 0.0;
+  if (number_of_valid_clocks_[gnss_satellite_id] < kNumberOfInterpolation) return 0.0;
 
   return clock_[gnss_satellite_id].CalcPolynomial(diff_s) * 1e-6;
 }
@@ -154,13 +162,34 @@ bool GnssSatellites::UpdateInterpolationInformation() {
   if (sp3_file_id_ >= sp3_files_.size()) return false;
   Sp3FileReader& sp3_file = sp3_files_[sp3_file_id_];
 
+  time_system::EpochTime sp3_time = time_system::EpochTime(sp3_file.GetEpochData(reference_interpolation_id_));
+  double time_diff_s = sp3_time.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
+
+  const Sp3Header sp3_header = sp3_file.GetHeader();
+  const std::vector<std::string>& file_satellite_ids = sp3_header.satellite_ids_;
+  // The data is not continuous when epochs are missing
+  const bool is_continuous = time_diff_s - orbit_[0].GetTimeList().back() < 1.5 * sp3_header.epoch_interval_s_;
+
   for (size_t gnss_id = 0; gnss_id < number_of_calculated_gnss_satellites_; gnss_id++) {
-    time_system::EpochTime sp3_time = time_system::EpochTime(sp3_file.GetEpochData(reference_interpolation_id_));
-    double time_diff_s = sp3_time.GetTimeWithFraction_s() - reference_time_.GetTimeWithFraction_s();
-    math::Vector<3> sp3_position_m = 1000.0 * sp3_file.GetSatellitePosition_km(reference_interpolation_id_, gnss_id);
+    // The order of satellites depends on the file
+    Sp3PositionClock data;
+    const auto file_satellite_id = std::find(file_satellite_ids.begin(), file_satellite_ids.end(), satellite_ids_[gnss_id]);
+    if (file_satellite_id != file_satellite_ids.end()) {
+      data = sp3_file.GetPositionClock(reference_interpolation_id_, (size_t)(file_satellite_id - file_satellite_ids.begin()));
+    }
+
+    if (!orbit_[gnss_id].PushAndPopData(time_diff_s, 1000.0 * data.position_km_)) continue;
+    clock_[gnss_id].PushAndPopData(time_diff_s, data.clock_us_);
 
-    orbit_[gnss_id].PushAndPopData(time_diff_s, sp3_position_m);
-    clock_[gnss_id].PushAndPopData(time_diff_s, sp3_file.GetSatelliteClockOffset(reference_interpolation_id_, gnss_id));
+    // Bad or absent data cannot be used for the interpolation
+    if (!is_continuous) {
+      number_of_valid_positions_[gnss_id] = 0;
+      number_of_valid_clocks_[gnss_id] = 0;
+    }
+    const bool is_valid_position = data.position_km_.CalcNorm() > 0.0;
+    const bool is_valid_clock = std::fabs(data.clock_us_) < std::floor(SP3_BAD_CLOCK_VALUE);
+    number_of_valid_positions_[gnss_id] = is_valid_position ? number_of_valid_positions_[gnss_id] + 1 : 0;
+    number_of_valid_clocks_[gnss_id] = is_valid_clock ? number_of_valid_clocks_[gnss_id] + 1 : 0;
   }
   reference_interpolation_id_++;
 
diff --git a/src/environment/global/gnss_satellites.hpp b/src/environment/global/gnss_satellites.hpp
index 467335d..01a32de 100644
--- a/src/environment/global/gnss_satellites.hpp
+++ b/src/environment/global/gnss_satellites.hpp
@@ -122,6 +122,10 @@ class GnssSatellites : public logger::ILoggable {
   size_t reference_interpolation_id_ = 0;        //!< Reference epoch ID of the interpolation
   time_system::EpochTime current_epoch_time_;    //!< The last updated time
 
+  std::vector<std::string> satellite_ids_;         //!< IDs of the calculated GNSS satellites
+  std::vector<size_t> number_of_valid_positions_;  //!< Number of the latest successive valid positions
+  std::vector<size_t> number_of_valid_clocks_;     //!< Number of the latest successive valid clock offsets
+
   std::vector<orbit::InterpolationOrbit> orbit_;  //!< GNSS satellite orbit with interpolation
   std::vector<math::Interpolation> clock_;        //!< GNSS satellite clock offset with interpolation
 
-- 
2.43.0


From d0a6223b009e26f3a0901f64a762a922dca6ff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 087/138] fix: use the complete epochs of missing and truncated
 SP3 files

---
 src/environment/global/gnss_satellites.cpp |  5 ++++-
 src/math_physics/gnss/sp3_file_reader.cpp  | 25 +++++++++++++++-------
 src/math_physics/gnss/sp3_file_reader.hpp  |  8 +++++++
 3 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index 67ec06b..f76915a 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -144,6 +144,7 @@ bool GnssSatellites::IsInInterpolationRange(const double time_s) const {
 
 bool GnssSatellites::GetCurrentSp3File(Sp3FileReader& current_sp3_file, const time_system::EpochTime current_time) {
   for (size_t i = 0; i < sp3_files_.size(); i++) {
+    if (sp3_files_[i].GetNumberOfEpoch() == 0) continue;
     time_system::EpochTime sp3_start_time(sp3_files_[i].GetStartEpochDateTime());
     double diff_s = current_time.GetTimeWithFraction_s() - sp3_start_time.GetTimeWithFraction_s();
     if (diff_s < 0.0) {
@@ -196,7 +197,9 @@ bool GnssSatellites::UpdateInterpolationInformation() {
   // File update
   if (reference_interpolation_id_ >= sp3_file.GetNumberOfEpoch()) {
     reference_interpolation_id_ = 0;
-    sp3_file_id_++;
+    do {
+      sp3_file_id_++;
+    } while (sp3_file_id_ < sp3_files_.size() && sp3_files_[sp3_file_id_].GetNumberOfEpoch() == 0);
     if (sp3_file_id_ >= sp3_files_.size()) {
       std::cout << "[Error] GNSS satellites: SP3 file range over." << std::endl;
       return false;
diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 2ae1366..89dd473 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -8,6 +8,7 @@
 
 #include "sp3_file_reader.hpp"
 
+#include <algorithm>
 #include <fstream>
 #include <iostream>
 
@@ -16,7 +17,7 @@ namespace s2e::gnss {
 Sp3FileReader::Sp3FileReader(const std::string file_name) { ReadFile(file_name); }
 
 time_system::DateTime Sp3FileReader::GetEpochData(const size_t epoch_id) const {
-  if (epoch_id > epoch_.size()) {
+  if (epoch_id >= epoch_.size()) {
     time_system::DateTime zero;
     return zero;
   }
@@ -28,7 +29,7 @@ Sp3PositionClock Sp3FileReader::GetPositionClock(const size_t epoch_id, const si
   if (epoch_id >= epoch_.size()) {
     return zero;
   }
-  if (satellite_id >= position_clock_.size()) {
+  if (satellite_id >= position_clock_.size() || epoch_id >= position_clock_[satellite_id].size()) {
     return zero;
   }
 
@@ -46,6 +47,20 @@ math::Vector<3> Sp3FileReader::GetSatellitePosition_km(const size_t epoch_id, co
 }
 
 bool Sp3FileReader::ReadFile(const std::string file_name) {
+  const bool is_success = ReadAllData(file_name);
+  if (!is_success) {
+    // Keep the completed epochs only
+    size_t number_of_completed_epoch = epoch_.size();
+    for (size_t satellite_id = 0; satellite_id < header_.number_of_satellites_; satellite_id++) {
+      number_of_completed_epoch = std::min(number_of_completed_epoch, position_clock_[satellite_id].size());
+    }
+    header_.number_of_epoch_ = number_of_completed_epoch;
+    epoch_.resize(number_of_completed_epoch);
+  }
+  return is_success;
+}
+
+bool Sp3FileReader::ReadAllData(const std::string file_name) {
   // File open
   std::ifstream sp3_file(file_name);
   if (!sp3_file.is_open()) {
@@ -116,12 +131,6 @@ bool Sp3FileReader::ReadFile(const std::string file_name) {
     }
   }
 
-  // Test
-  time_system::DateTime test = epoch_[0];
-  test = epoch_[1];
-  std::vector<Sp3PositionClock> test_p = position_clock_[0];
-  test_p = position_clock_[1];
-
   sp3_file.close();
   return true;
 }
diff --git a/src/math_physics/gnss/sp3_file_reader.hpp b/src/math_physics/gnss/sp3_file_reader.hpp
index 4e98933..c8bda4f 100644
--- a/src/math_physics/gnss/sp3_file_reader.hpp
+++ b/src/math_physics/gnss/sp3_file_reader.hpp
@@ -199,6 +199,14 @@ class Sp3FileReader {
    * @return true: File read success, false: File read error
    */
   bool ReadFile(const std::string file_name);
+
+  /**
+   * @fn ReadAllData
+   * @brief Read the header and all epochs of the file
+   * @param [in] file_name: File name
+   * @return true: no error, false: the file is not found or the data is incomplete
+   */
+  bool ReadAllData(const std::string file_name);
   /**
    * @fn ReadHeader
    * @brief Read SP3 file
-- 
2.43.0


From f2a2299eaf90451747634977f2560ff0289ad2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 088/138] fix: read velocity mode and short lines of SP3 files

---
 src/math_physics/gnss/sp3_file_reader.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 89dd473..51acd47 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -171,7 +171,7 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
   // Read contents
   if (line[2] == 'P') {
     header_.mode_ = Sp3Mode::kPosition;
-  } else if (line[3] == 'V') {
+  } else if (line[2] == 'V') {
     header_.mode_ = Sp3Mode::kVelocity;
   } else {
     header_.mode_ = Sp3Mode::kOther;
@@ -332,6 +332,7 @@ Sp3PositionClock Sp3FileReader::DecodePositionClockData(std::string line) {
 
   // Standard deviations
   if (line.size() > 61) {
+    line.resize(80, ' ');
     math::Vector<3> position_standard_deviation;
     for (size_t axis = 0; axis < 3; axis++) {
       try {
@@ -401,13 +402,22 @@ Sp3VelocityClockRate Sp3FileReader::DecodeVelocityClockRateData(std::string line
   velocity_clock_rate.clock_rate_ = stod(line.substr(46, 14));
 
   // Standard deviations
-  if (line.size() > 60) {
+  if (line.size() > 61) {
+    line.resize(80, ' ');
     math::Vector<3> velocity_standard_deviation;
     for (size_t axis = 0; axis < 3; axis++) {
-      velocity_standard_deviation[axis] = stod(line.substr(61 + axis * 2, 2));
+      try {
+        velocity_standard_deviation[axis] = stod(line.substr(61 + axis * 3, 2));
+      } catch (const std::invalid_argument&) {
+        velocity_standard_deviation[axis] = 0.0;
+      }
     }
     velocity_clock_rate.velocity_standard_deviation_ = velocity_standard_deviation;
-    velocity_clock_rate.clock_rate_standard_deviation_ = stod(line.substr(70, 3));
+    try {
+      velocity_clock_rate.clock_rate_standard_deviation_ = stod(line.substr(70, 3));
+    } catch (const std::invalid_argument&) {
+      velocity_clock_rate.clock_rate_standard_deviation_ = 0.0;
+    }
   }
 
   return velocity_clock_rate;
-- 
2.43.0


From a65a5a857610cba7ddfdb387cf395f5df000053d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:48 +0000
Subject: [PATCH 089/138] fix: hide GNSS satellites below the horizon of low
 receivers

---
 src/components/real/aocs/gnss_receiver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/aocs/gnss_receiver.cpp b/src/components/real/aocs/gnss_receiver.cpp
index 8acf578..7aa23b6 100644
--- a/src/components/real/aocs/gnss_receiver.cpp
+++ b/src/components/real/aocs/gnss_receiver.cpp
@@ -133,9 +133,9 @@ void GnssReceiver::CheckAntennaCone(const math::Vector<3> position_true_eci_m, c
     // Check GNSS satellites are visible from the receiver(not care antenna direction)
     bool is_gnss_satellite_visible_from_receiver = false;
     double inner1 = InnerProduct(antenna_position_i_m, gnss_satellite_position_i_m);
-    if (inner1 > 0.0) {  // GNSS satellite and receiver are in the same hemisphere
+    if (inner1 > pow(environment::earth_equatorial_radius_m, 2.0)) {  // GNSS satellite is on the near side of the horizon
       is_gnss_satellite_visible_from_receiver = true;
-    } else {  // GNSS satellite is in the another hemisphere
+    } else {  // GNSS satellite is on the far side of the horizon
       double angle_bw_earth_center_and_edge_rad = asin(environment::earth_equatorial_radius_m / antenna_position_i_m.CalcNorm());
       double angle_bw_earth_center_and_gnss_rad =
           acos(InnerProduct(-antenna_position_i_m.CalcNormalizedVector(), antenna_to_gnss_satellite_direction_i));
-- 
2.43.0


From e61aab8f51616f6a7eb32d3abd0d3fc111d5e502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:42 +0000
Subject: [PATCH 090/138] fix: report no negative seconds of the UTC at full
 minutes

---
 src/environment/global/simulation_time.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/global/simulation_time.cpp b/src/environment/global/simulation_time.cpp
index dd9a155..f41d46a 100644
--- a/src/environment/global/simulation_time.cpp
+++ b/src/environment/global/simulation_time.cpp
@@ -246,7 +246,7 @@ void SimulationTime::ConvJDtoCalendarDay(const double JD) {
   current_utc_.day = (unsigned int)(day);
   current_utc_.hour = (unsigned int)(hr);
   current_utc_.minute = (unsigned int)(minute);
-  current_utc_.second = sec;
+  current_utc_.second = sec < 0.0 ? 0.0 : sec;  // invjday can return a slightly negative value at a full minute
 }
 
 SimulationTime* InitSimulationTime(std::string file_name) {
-- 
2.43.0


From f2554918bd8e6646438751cdc84561bee5b805da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:50 +0000
Subject: [PATCH 091/138] fix: read every ground station from its own file

---
 src/simulation/ground_station/ground_station.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simulation/ground_station/ground_station.cpp b/src/simulation/ground_station/ground_station.cpp
index 2c06c7b..873e057 100644
--- a/src/simulation/ground_station/ground_station.cpp
+++ b/src/simulation/ground_station/ground_station.cpp
@@ -27,7 +27,9 @@ GroundStation::GroundStation(const simulation::SimulationConfiguration* configur
 GroundStation::~GroundStation() {}
 
 void GroundStation::Initialize(const simulation::SimulationConfiguration* configuration, const unsigned int ground_station_id) {
-  std::string gs_ini_path = configuration->ground_station_file_list_[0];
+  const std::vector<std::string>& file_list = configuration->ground_station_file_list_;
+  // The first file is used when the ground station does not have its own file
+  std::string gs_ini_path = ground_station_id < file_list.size() ? file_list[ground_station_id] : file_list.at(0);
   auto conf = setting_file_reader::IniAccess(gs_ini_path);
 
   const char* section_base = "GROUND_STATION_";
-- 
2.43.0


From f3ad780140196788e24a67870cfc0277edfad1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:50 +0000
Subject: [PATCH 092/138] fix: use the downlink bitrate of the calculator for
 the receive margin

---
 src/components/real/communication/ground_station_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/communication/ground_station_calculator.cpp b/src/components/real/communication/ground_station_calculator.cpp
index bec0c2f..ebc2956 100644
--- a/src/components/real/communication/ground_station_calculator.cpp
+++ b/src/components/real/communication/ground_station_calculator.cpp
@@ -58,7 +58,7 @@ double GroundStationCalculator::CalcMaxBitrate(const dynamics::Dynamics& dynamic
 double GroundStationCalculator::CalcReceiveMarginOnGs(const dynamics::Dynamics& dynamics, const Antenna& spacecraft_tx_antenna,
                                                       const ground_station::GroundStation& ground_station, const Antenna& ground_station_rx_antenna) {
   double cn0_dB = CalcCn0OnGs(dynamics, spacecraft_tx_antenna, ground_station, ground_station_rx_antenna);
-  double cn0_requirement_dB = ebn0_dB_ + hardware_deterioration_dB_ + coding_gain_dB_ + 10.0 * log10(spacecraft_tx_antenna.GetBitrate_bps());
+  double cn0_requirement_dB = ebn0_dB_ + hardware_deterioration_dB_ + coding_gain_dB_ + 10.0 * log10(downlink_bitrate_bps_);
   return cn0_dB - cn0_requirement_dB;
 }
 
-- 
2.43.0


From e5f06eebbed17c66968a4610ec66826c60749ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:50 +0000
Subject: [PATCH 093/138] fix: keep the antenna angle of exact pointing defined

---
 .../real/communication/ground_station_calculator.cpp         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/components/real/communication/ground_station_calculator.cpp b/src/components/real/communication/ground_station_calculator.cpp
index ebc2956..8f89586 100644
--- a/src/components/real/communication/ground_station_calculator.cpp
+++ b/src/components/real/communication/ground_station_calculator.cpp
@@ -5,6 +5,7 @@
 
 #include "ground_station_calculator.hpp"
 
+#include <algorithm>
 #include <environment/global/physical_constants.hpp>
 #include <math_physics/math/constants.hpp>
 #include <setting_file_reader/initialize_file_access.hpp>
@@ -81,7 +82,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   sc_to_gs_i = sc_to_gs_i.CalcNormalizedVector();
   math::Quaternion q_i_to_sc_ant = spacecraft_tx_antenna.GetQuaternion_b2c() * dynamics.GetAttitude().GetQuaternion_i2b();
   math::Vector<3> gs_direction_on_sc_frame = q_i_to_sc_ant.FrameConversion(sc_to_gs_i);
-  double theta_on_sc_antenna_rad = acos(gs_direction_on_sc_frame[2]);
+  double theta_on_sc_antenna_rad = acos(std::max(-1.0, std::min(1.0, gs_direction_on_sc_frame[2])));
   double phi_on_sc_antenna_rad = atan2(gs_direction_on_sc_frame[1], gs_direction_on_sc_frame[0]);
 
   // SC direction on GS RX antenna frame
@@ -89,7 +90,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   gs_to_sc_ecef = gs_to_sc_ecef.CalcNormalizedVector();
   math::Quaternion q_ecef_to_gs_ant = ground_station_rx_antenna.GetQuaternion_b2c() * ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc();
   math::Vector<3> sc_direction_on_gs_frame = q_ecef_to_gs_ant.FrameConversion(gs_to_sc_ecef);
-  double theta_on_gs_antenna_rad = acos(sc_direction_on_gs_frame[2]);
+  double theta_on_gs_antenna_rad = acos(std::max(-1.0, std::min(1.0, sc_direction_on_gs_frame[2])));
   double phi_on_gs_antenna_rad = atan2(sc_direction_on_gs_frame[1], sc_direction_on_gs_frame[0]);
 
   // Calc CN0
-- 
2.43.0


From 62651c81636fdc185b54c80efb05286886c07004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:50 +0000
Subject: [PATCH 094/138] fix: use the antenna gain of directions with negative
 phi

---
 .../real/communication/antenna_radiation_pattern.cpp     | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/components/real/communication/antenna_radiation_pattern.cpp b/src/components/real/communication/antenna_radiation_pattern.cpp
index b1a3bce..71b00ae 100644
--- a/src/components/real/communication/antenna_radiation_pattern.cpp
+++ b/src/components/real/communication/antenna_radiation_pattern.cpp
@@ -26,6 +26,15 @@ double AntennaRadiationPattern::GetGain_dBi(const double theta_rad, const double
   // Argument check
   double theta_rad_clipped = theta_rad;
   double phi_rad_clipped = phi_rad;
+  // The direction with negative phi is on the other side of the table
+  if (phi_rad_clipped < 0.0) {
+    if (phi_max_rad_ > 1.5 * math::pi) {
+      phi_rad_clipped += math::tau;
+    } else if (theta_max_rad_ > 1.5 * math::pi) {
+      theta_rad_clipped = math::tau - theta_rad_clipped;
+      phi_rad_clipped += math::pi;
+    }
+  }
   if (theta_rad_clipped < 0.0) theta_rad_clipped = 0.0;
   if (theta_rad_clipped > theta_max_rad_) theta_rad_clipped = theta_max_rad_;
   if (phi_rad_clipped < 0.0) phi_rad_clipped = 0.0;
-- 
2.43.0


From afe4348b8dfcac3a3344496ca2645f3143c0bddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:31 +0000
Subject: [PATCH 095/138] fix: rotate link directions into the antenna frames
 in the right order

---
 .../real/communication/ground_station_calculator.cpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/real/communication/ground_station_calculator.cpp b/src/components/real/communication/ground_station_calculator.cpp
index 8f89586..1d2ad62 100644
--- a/src/components/real/communication/ground_station_calculator.cpp
+++ b/src/components/real/communication/ground_station_calculator.cpp
@@ -80,7 +80,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   // GS direction on SC TX antenna frame
   math::Vector<3> sc_to_gs_i = gs_pos_i - sc_pos_i;
   sc_to_gs_i = sc_to_gs_i.CalcNormalizedVector();
-  math::Quaternion q_i_to_sc_ant = spacecraft_tx_antenna.GetQuaternion_b2c() * dynamics.GetAttitude().GetQuaternion_i2b();
+  math::Quaternion q_i_to_sc_ant = dynamics.GetAttitude().GetQuaternion_i2b() * spacecraft_tx_antenna.GetQuaternion_b2c();
   math::Vector<3> gs_direction_on_sc_frame = q_i_to_sc_ant.FrameConversion(sc_to_gs_i);
   double theta_on_sc_antenna_rad = acos(std::max(-1.0, std::min(1.0, gs_direction_on_sc_frame[2])));
   double phi_on_sc_antenna_rad = atan2(gs_direction_on_sc_frame[1], gs_direction_on_sc_frame[0]);
@@ -88,7 +88,7 @@ double GroundStationCalculator::CalcCn0OnGs(const dynamics::Dynamics& dynamics,
   // SC direction on GS RX antenna frame
   math::Vector<3> gs_to_sc_ecef = dynamics.GetOrbit().GetPosition_ecef_m() - ground_station.GetPosition_ecef_m();
   gs_to_sc_ecef = gs_to_sc_ecef.CalcNormalizedVector();
-  math::Quaternion q_ecef_to_gs_ant = ground_station_rx_antenna.GetQuaternion_b2c() * ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc();
+  math::Quaternion q_ecef_to_gs_ant = ground_station.GetGeodeticPosition().GetQuaternionXcxfToLtc() * ground_station_rx_antenna.GetQuaternion_b2c();
   math::Vector<3> sc_direction_on_gs_frame = q_ecef_to_gs_ant.FrameConversion(gs_to_sc_ecef);
   double theta_on_gs_antenna_rad = acos(std::max(-1.0, std::min(1.0, sc_direction_on_gs_frame[2])));
   double phi_on_gs_antenna_rad = atan2(sc_direction_on_gs_frame[1], sc_direction_on_gs_frame[0]);
-- 
2.43.0


From 838b454ab562f88dc80365c0d95b1e42e57421e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 096/138] fix: do not delete an uninitialized logger when the
 log settings are rejected

---
 src/simulation/simulation_configuration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulation/simulation_configuration.hpp b/src/simulation/simulation_configuration.hpp
index e3adeb8..ff6a5e5 100644
--- a/src/simulation/simulation_configuration.hpp
+++ b/src/simulation/simulation_configuration.hpp
@@ -19,7 +19,7 @@ namespace s2e::simulation {
  */
 struct SimulationConfiguration {
   std::string initialize_base_file_name_;  //!< Base file name for initialization
-  logger::Logger* main_logger_;            //!< Main logger
+  logger::Logger* main_logger_ = nullptr;  //!< Main logger
 
   unsigned int number_of_simulated_spacecraft_;    //!< Number of simulated spacecraft
   std::vector<std::string> spacecraft_file_list_;  //!< File name list for spacecraft initialization
-- 
2.43.0


From f84acf728ecdd774669dcb47fe25ab292dea2103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 097/138] fix: reject power scenario lines without all columns

---
 src/components/real/power/csv_scenario_interface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/components/real/power/csv_scenario_interface.cpp b/src/components/real/power/csv_scenario_interface.cpp
index 85f753a..f84096b 100644
--- a/src/components/real/power/csv_scenario_interface.cpp
+++ b/src/components/real/power/csv_scenario_interface.cpp
@@ -82,6 +82,7 @@ std::vector<std::vector<double>> CsvScenarioInterface::ReadCsvData(const std::st
 void CsvScenarioInterface::StoreBuffer(const std::string buffer_name, const std::vector<std::vector<double>>& data) {
   auto line_num = buffer_line_id_.at(buffer_name);
   for (const auto& line : data) {
+    if (line.size() <= line_num) throw std::invalid_argument("CSV scenario: a line has no value of " + buffer_name + ".");
     buffers_[buffer_name][line[0]] = line[line_num];
   }
 }
-- 
2.43.0


From 88fda2f19a365989d1313ca0f560ae7ab39c78f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:53 +0000
Subject: [PATCH 098/138] fix: reject thermal tables with missing heaters,
 nodes or matrix elements

---
 src/dynamics/thermal/temperature.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/dynamics/thermal/temperature.cpp b/src/dynamics/thermal/temperature.cpp
index dcc11a6..aca7283 100644
--- a/src/dynamics/thermal/temperature.cpp
+++ b/src/dynamics/thermal/temperature.cpp
@@ -382,6 +382,7 @@ Temperature* InitTemperature(const std::string file_name, const double rk_prop_s
   /*since we don't know the number of node_list yet, set node_num=100 temporary.
     Recall that Nodes_num are given to this function only to reserve memory*/
 
+  assert(!heatload_str_list.empty());  // The file must have the row of time data
   heatload_num = heatload_str_list.size() - 1;
   auto times_itr = heatload_str_list.begin();  // First Row is Time Data
   for (auto itr = heatload_str_list.begin() + 1; itr != heatload_str_list.end(); ++itr) {
@@ -395,6 +396,7 @@ Temperature* InitTemperature(const std::string file_name, const double rk_prop_s
   /*since we don't know the number of node_list yet, set node_num=100 temporary.
     Recall that Nodes_num are given to this function only to reserve memory*/
 
+  assert(node_str_list.size() >= 2);                                               // The file must have the header and one node
   node_num = node_str_list.size() - 1;                                             // First Row is for Header(not data)
   node_list.reserve(node_num);                                                     // reserve memory
   for (auto itr = node_str_list.begin() + 1; itr != node_str_list.end(); ++itr) {  // first row is for labels
@@ -410,6 +412,7 @@ Temperature* InitTemperature(const std::string file_name, const double rk_prop_s
   /*since we don't know the number of heater_list yet, set heater_num=100 temporary.
     Recall that heater_num are given to this function only to reserve memory*/
 
+  assert(!heater_str_list.empty());         // The file must have the header
   heater_num = heater_str_list.size() - 1;  // First Row is for Header(not data)
   heater_list.reserve(heater_num);          // reserve memory
   heater_controller_list.reserve(heater_num);
@@ -418,6 +421,11 @@ Temperature* InitTemperature(const std::string file_name, const double rk_prop_s
     heater_controller_list.push_back(InitHeaterController(*itr));
   }
 
+  for (const auto& node : node_list) {
+    assert(node.GetHeaterId() <= heater_num);  // The heater must be defined
+    (void)node;
+  }
+
   // Read Cij,Rij data from CSV File
   string filepath_cij = file_path + "cij.csv";
   string filepath_rij = file_path + "rij.csv";
@@ -428,8 +436,10 @@ Temperature* InitTemperature(const std::string file_name, const double rk_prop_s
 
   assert(conductance_matrix.size() == node_num);                      // Dimension must be same as node_num
   assert(radiation_matrix.size() == node_num);                        // Dimension must be same as node_num
-  assert(conductance_matrix.size() == conductance_matrix[0].size());  // Must be square matrix
-  assert(radiation_matrix.size() == radiation_matrix[0].size());      // Must be square matrix
+  for (size_t i = 0; i < node_num; i++) {
+    assert(conductance_matrix[i].size() == node_num);  // Must be square matrix
+    assert(radiation_matrix[i].size() == node_num);    // Must be square matrix
+  }
 
   Temperature* temperature;
   temperature = new Temperature(conductance_matrix, radiation_matrix, node_list, heatload_list, heater_list, heater_controller_list, node_num,
-- 
2.43.0


From 54520a395c3d920b9efb1ec8f1d873e4e5489c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:33 +0000
Subject: [PATCH 099/138] fix: use the last epochs of the GNSS products when
 later files are missing

---
 src/environment/global/gnss_satellites.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/environment/global/gnss_satellites.cpp b/src/environment/global/gnss_satellites.cpp
index f76915a..b92f094 100644
--- a/src/environment/global/gnss_satellites.cpp
+++ b/src/environment/global/gnss_satellites.cpp
@@ -47,11 +47,12 @@ void GnssSatellites::Initialize(const std::vector<Sp3FileReader>& sp3_files, con
     reference_interpolation_id_ = nearest_epoch_id - half_interpolation_number;
   }
   // Use the last epochs when the following epochs are not enough
-  if (sp3_file_id_ + 1 == sp3_files_.size()) {
-    const size_t number_of_epoch = initial_sp3_file.GetNumberOfEpoch();
-    if (reference_interpolation_id_ + kNumberOfInterpolation > number_of_epoch) {
-      reference_interpolation_id_ = number_of_epoch > kNumberOfInterpolation ? number_of_epoch - kNumberOfInterpolation : 0;
-    }
+  size_t number_of_epoch = 0;
+  for (size_t i = sp3_file_id_; i < sp3_files_.size(); i++) {
+    number_of_epoch += sp3_files_[i].GetNumberOfEpoch();
+  }
+  if (reference_interpolation_id_ + kNumberOfInterpolation > number_of_epoch) {
+    reference_interpolation_id_ = number_of_epoch > kNumberOfInterpolation ? number_of_epoch - kNumberOfInterpolation : 0;
   }
   reference_time_ = time_system::EpochTime(initial_sp3_file.GetEpochData(reference_interpolation_id_));
 
-- 
2.43.0


From b3fb7a23d0774461f01919f5d673ca05698baf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:13 +0000
Subject: [PATCH 100/138] fix: reject time series orbit files with incomplete
 rows

---
 src/dynamics/orbit/time_series_file_orbit_propagation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
index e8da957..bdb45e2 100644
--- a/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
+++ b/src/dynamics/orbit/time_series_file_orbit_propagation.cpp
@@ -36,6 +36,12 @@ TimeSeriesFileOrbitPropagation::TimeSeriesFileOrbitPropagation(const environment
   setting_file_reader::IniAccess time_series_file(time_series_file_path);
   time_series_file.ReadCsvDoubleWithHeader(time_series_data_, 7, 1, 0);
 
+  for (const auto& row : time_series_data_) {
+    if (row.size() < 7) {
+      std::cerr << "[ERROR] Time series file orbit propagation: " << time_series_file_path << " has a row with less than 7 columns." << std::endl;
+      std::exit(1);
+    }
+  }
   if (number_of_interpolation < 1 || time_series_data_.size() < static_cast<size_t>(number_of_interpolation)) {
     std::cerr << "[ERROR] Time series file orbit propagation: " << time_series_file_path << " has less rows than needed for the interpolation."
               << std::endl;
-- 
2.43.0


From 08d3b6d1bb44a73fc43425bfda0f76e5857fa8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:13 +0000
Subject: [PATCH 101/138] fix: reject antenna radiation patterns smaller than
 the defined grid

---
 .../real/communication/antenna_radiation_pattern.cpp           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/components/real/communication/antenna_radiation_pattern.cpp b/src/components/real/communication/antenna_radiation_pattern.cpp
index 71b00ae..3f02d44 100644
--- a/src/components/real/communication/antenna_radiation_pattern.cpp
+++ b/src/components/real/communication/antenna_radiation_pattern.cpp
@@ -46,7 +46,8 @@ double AntennaRadiationPattern::GetGain_dBi(const double theta_rad, const double
   size_t phi_idx = (size_t)(length_phi_ * phi_rad_clipped / phi_max_rad_ + 0.5);
   if (phi_idx >= length_phi_) phi_idx = length_phi_ - 1;
 
-  return gain_dBi_[theta_idx][phi_idx];
+  // The table can be smaller than the defined grid
+  return gain_dBi_.at(theta_idx).at(phi_idx);
 }
 
 }  // namespace s2e::components
-- 
2.43.0


From d3c1f18e33b2ed26069ef14a8f36bbfe5d8591e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:13 +0000
Subject: [PATCH 102/138] fix: check the degree and order of gravity
 coefficient files

---
 src/disturbances/geopotential.cpp        | 4 ++++
 src/disturbances/lunar_gravity_field.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/disturbances/geopotential.cpp b/src/disturbances/geopotential.cpp
index 73b6ddc..fb24f53 100644
--- a/src/disturbances/geopotential.cpp
+++ b/src/disturbances/geopotential.cpp
@@ -63,6 +63,10 @@ bool Geopotential::ReadCoefficientsEgm96(std::string file_name) {
     getline(coeff_file, line);
     std::istringstream streamline(line);
     streamline >> n >> m >> c_nm_norm >> s_nm_norm;
+    if (!streamline || n < 0 || m < 0 || n > (int)degree_ || m > n) {
+      std::cerr << "File format error: Geopotential\n";
+      return false;
+    }
 
     c_[n][m] = c_nm_norm;
     s_[n][m] = s_nm_norm;
diff --git a/src/disturbances/lunar_gravity_field.cpp b/src/disturbances/lunar_gravity_field.cpp
index 1bdbc80..658e798 100644
--- a/src/disturbances/lunar_gravity_field.cpp
+++ b/src/disturbances/lunar_gravity_field.cpp
@@ -82,6 +82,10 @@ bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string file_name) {
     // next line
     getline(coeff_file, line);
 
+    if (n < 0 || m < 0 || n > (int)degree_ || m > n) {
+      std::cerr << "File format error: LunarGravityField\n";
+      return false;
+    }
     c_[n][m] = c_nm_norm;
     s_[n][m] = s_nm_norm;
   }
-- 
2.43.0


From ed4165b8d321319dabe4c001aa0e4987184bb8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:34 +0000
Subject: [PATCH 103/138] fix: reject incomplete rows of reaction wheel jitter
 coefficients

---
 src/components/real/aocs/reaction_wheel.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/components/real/aocs/reaction_wheel.cpp b/src/components/real/aocs/reaction_wheel.cpp
index 25e93e2..ad49568 100644
--- a/src/components/real/aocs/reaction_wheel.cpp
+++ b/src/components/real/aocs/reaction_wheel.cpp
@@ -11,6 +11,7 @@
 #include <math_physics/math/vector.hpp>
 #include <random>
 #include <setting_file_reader/initialize_file_access.hpp>
+#include <stdexcept>
 
 namespace s2e::components {
 
@@ -333,6 +334,12 @@ void InitParams(int actuator_id, std::string file_name, double compo_update_step
   conf_radial_force_harmonics.ReadCsvDouble(radial_force_harmonics_coefficients, harmonics_degree);
   conf_radial_torque_harmonics.ReadCsvDouble(radial_torque_harmonics_coefficients, harmonics_degree);
 
+  for (const auto* coefficients : {&radial_force_harmonics_coefficients, &radial_torque_harmonics_coefficients}) {
+    for (const auto& row : *coefficients) {
+      if (is_calc_jitter_enabled && row.size() < 2) throw std::invalid_argument("Reaction wheel jitter: a row of harmonics coefficients has less than 2 columns.");
+    }
+  }
+
   double structural_resonance_frequency_Hz = rw_ini_file.ReadDouble(jitter_section, "structural_resonance_frequency_Hz");
   double damping_factor = rw_ini_file.ReadDouble(jitter_section, "damping_factor");
   double bandwidth = rw_ini_file.ReadDouble(jitter_section, "bandwidth");
-- 
2.43.0


From 2145b478ffab19598af006c64c5701f1f86d64bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:34 +0000
Subject: [PATCH 104/138] fix: do not register incomplete stars of the
 Hipparcos catalogue

---
 src/environment/global/hipparcos_catalogue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/environment/global/hipparcos_catalogue.cpp b/src/environment/global/hipparcos_catalogue.cpp
index eea0027..fb63e0a 100644
--- a/src/environment/global/hipparcos_catalogue.cpp
+++ b/src/environment/global/hipparcos_catalogue.cpp
@@ -41,6 +41,10 @@ bool HipparcosCatalogue::ReadContents(const std::string& file_name, const char d
 
     streamline >> hipparcos_data.hipparcos_id >> hipparcos_data.visible_magnitude >> hipparcos_data.right_ascension_deg >>
         hipparcos_data.declination_deg;
+    if (streamline.fail()) {
+      std::cerr << "file format error(hip_main.csv)";
+      return false;
+    }
 
     if (hipparcos_data.visible_magnitude > max_magnitude_) {
       return true;
-- 
2.43.0


From 9cc3eee4ce88edceff8b04d777b886f5a0c0c3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:39 +0000
Subject: [PATCH 105/138] fix: check the month of dates in the space weather
 table

---
 src/math_physics/atmosphere/wrapper_nrlmsise00.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
index 51bc332..41bb2e0 100644
--- a/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
+++ b/src/math_physics/atmosphere/wrapper_nrlmsise00.cpp
@@ -18,6 +18,7 @@ extern "C" {
 #include <environment/global/physical_constants.hpp>
 #include <math_physics/math/constants.hpp>
 #include <numeric>
+#include <stdexcept>
 
 #include "wrapper_nrlmsise00.hpp" /* header for nrlmsise-00.h */
 
@@ -126,6 +127,7 @@ double ConvertDateToDecyear(int year, int month, int day) {
     days_month[1] = 29;
   }
 
+  if (month < 1 || month > 12) throw std::invalid_argument("NRLMSISE00: the month of a date in the space weather table is invalid.");
   double days = (double)accumulate(days_month, days_month + month - 1, 0) + (double)(day - 1);
 
   return (double)year + days / (double)days_per_year;
-- 
2.43.0


From dbb998bf200bb15e9445d34b27df40953f7d0064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:44 +0000
Subject: [PATCH 106/138] fix: reject time steps which make no progress

---
 src/environment/global/simulation_time.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/environment/global/simulation_time.cpp b/src/environment/global/simulation_time.cpp
index f41d46a..b09a1de 100644
--- a/src/environment/global/simulation_time.cpp
+++ b/src/environment/global/simulation_time.cpp
@@ -62,6 +62,12 @@ SimulationTime::SimulationTime(const double end_sec, const double step_sec, cons
 SimulationTime::~SimulationTime() {}
 
 void SimulationTime::AssertTimeStepParams() {
+  // Time steps must be positive to make progress
+  assert(step_sec_ > 0.0);
+  assert(attitude_rk_step_sec_ > 0.0);
+  assert(orbit_rk_step_sec_ > 0.0);
+  assert(thermal_rk_step_sec_ > 0.0);
+
   // Runge-Kutta time step must be smaller than its update interval
   assert(attitude_rk_step_sec_ <= attitude_update_interval_sec_);
   assert(orbit_rk_step_sec_ <= orbit_update_interval_sec_);
-- 
2.43.0


From d474a4bae72612eabaaa4d35436c01ca948cfbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:00 +0000
Subject: [PATCH 107/138] fix: reject an incomplete simulation start time

---
 src/environment/global/simulation_time.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/environment/global/simulation_time.cpp b/src/environment/global/simulation_time.cpp
index b09a1de..071598f 100644
--- a/src/environment/global/simulation_time.cpp
+++ b/src/environment/global/simulation_time.cpp
@@ -9,6 +9,7 @@
 #include <SpiceUsr.h>
 
 #include <cassert>
+#include <cstdlib>
 #include <iostream>
 #include <sstream>
 
@@ -43,7 +44,10 @@ SimulationTime::SimulationTime(const double end_sec, const double step_sec, cons
   time_exceeds_continuously_limit_sec_ = 1.0;
 
   //  sscanf_s(start_ymdhms, "%d/%d/%d %d:%d:%lf", &start_year_, &start_month_, &start_day_, &start_hour_, &start_minute_, &start_sec_);
-  sscanf(start_ymdhms, "%d/%d/%d %d:%d:%lf", &start_year_, &start_month_, &start_day_, &start_hour_, &start_minute_, &start_sec_);
+  if (sscanf(start_ymdhms, "%d/%d/%d %d:%d:%lf", &start_year_, &start_month_, &start_day_, &start_hour_, &start_minute_, &start_sec_) != 6) {
+    std::cerr << "[Error SimulationTime]: The simulation start time is invalid: " << start_ymdhms << std::endl;
+    std::exit(1);
+  }
   jday(start_year_, start_month_, start_day_, start_hour_, start_minute_, start_sec_, start_jd_);
   current_jd_ = start_jd_;
   current_sidereal_ = gstime(current_jd_);
-- 
2.43.0


From 3755c000153346d887373a53c7545c3160ad63bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:43 +0000
Subject: [PATCH 108/138] fix: reject settings without selected celestial
 bodies

---
 src/environment/global/celestial_information.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/environment/global/celestial_information.cpp b/src/environment/global/celestial_information.cpp
index a8ffde6..add17dd 100644
--- a/src/environment/global/celestial_information.cpp
+++ b/src/environment/global/celestial_information.cpp
@@ -219,6 +219,7 @@ CelestialInformation* InitCelestialInformation(std::string file_name) {
 
   // Initialize celestial body list
   const int num_of_selected_body = ini_file.ReadInt(section, "number_of_selected_body");
+  assert(num_of_selected_body > 0);  // The information of the bodies is always needed
   int* selected_body = new int[num_of_selected_body];
   for (int i = 0; i < num_of_selected_body; i++) {
     // Convert body name to SPICE ID
-- 
2.43.0


From 5b2847c708dd271a65a323daad41f957f51c58ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:14 +0000
Subject: [PATCH 109/138] fix: reject spacecraft without a settings file entry

---
 src/simulation/spacecraft/spacecraft.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simulation/spacecraft/spacecraft.cpp b/src/simulation/spacecraft/spacecraft.cpp
index 59e060a..dd0c66b 100644
--- a/src/simulation/spacecraft/spacecraft.cpp
+++ b/src/simulation/spacecraft/spacecraft.cpp
@@ -7,6 +7,8 @@
 
 #include <logger/log_utility.hpp>
 #include <logger/logger.hpp>
+#include <stdexcept>
+#include <string>
 
 namespace s2e::spacecraft {
 
@@ -30,6 +32,10 @@ Spacecraft::~Spacecraft() {
 void Spacecraft::Initialize(const simulation::SimulationConfiguration* simulation_configuration,
                             const environment::GlobalEnvironment* global_environment, const int spacecraft_id,
                             simulation::RelativeInformation* relative_information) {
+  if (spacecraft_id < 0 || static_cast<size_t>(spacecraft_id) >= simulation_configuration->spacecraft_file_list_.size()) {
+    throw std::invalid_argument("The settings file of spacecraft " + std::to_string(spacecraft_id) + " is not defined.");
+  }
+
   clock_generator_.ClearTimerCount();
   structure_ = new spacecraft::Structure(simulation_configuration, spacecraft_id);
   local_environment_ = new environment::LocalEnvironment(simulation_configuration, global_environment, spacecraft_id);
-- 
2.43.0


From a9c6426f0f807ae2af7ab6ccaaa6e7aba5efa84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:57 +0000
Subject: [PATCH 110/138] fix: name the hardware port classes with their
 namespace

---
 src/simulation/hils/hils_port_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulation/hils/hils_port_manager.cpp b/src/simulation/hils/hils_port_manager.cpp
index 8f68bff..c00e9f5 100644
--- a/src/simulation/hils/hils_port_manager.cpp
+++ b/src/simulation/hils/hils_port_manager.cpp
@@ -26,7 +26,7 @@ int HilsPortManager::UartConnectComPort(unsigned int port_id, unsigned int baud_
     printf("Error: Illegal parameter\n");
     return -1;
   }
-  uart_ports_[port_id] = new HilsUartPort(port_id, baud_rate, tx_buffer_size, rx_buffer_size);
+  uart_ports_[port_id] = new components::HilsUartPort(port_id, baud_rate, tx_buffer_size, rx_buffer_size);
   return 0;
 #else
   UNUSED(port_id);
@@ -115,7 +115,7 @@ int HilsPortManager::I2cTargetConnectComPort(unsigned int port_id) {
     printf("Error: Port is already used\n");
     return -1;
   }
-  i2c_ports_[port_id] = new HilsI2cTargetPort(port_id);
+  i2c_ports_[port_id] = new components::HilsI2cTargetPort(port_id);
   i2c_ports_[port_id]->RegisterDevice();
   return 0;
 #else
-- 
2.43.0


From 28ee900c1af2a1253a835f34913aa634c77bd880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:16 +0000
Subject: [PATCH 111/138] fix: stop hardware I2C register accesses at the end
 of the register space

---
 src/simulation/hils/hils_port_manager.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/simulation/hils/hils_port_manager.cpp b/src/simulation/hils/hils_port_manager.cpp
index c00e9f5..6e40831 100644
--- a/src/simulation/hils/hils_port_manager.cpp
+++ b/src/simulation/hils/hils_port_manager.cpp
@@ -148,8 +148,9 @@ int HilsPortManager::I2cTargetWriteRegister(unsigned int port_id, const unsigned
 #ifdef USE_HILS
   components::HilsI2cTargetPort* port = i2c_ports_[port_id];
   if (port == nullptr) return -1;
-  for (unsigned char i = 0; i < length; i++) {
-    port->WriteRegister(register_address + i, data[i]);
+  for (unsigned int i = 0; i < length; i++) {
+    if (register_address + i > 0xff) break;
+    port->WriteRegister(static_cast<unsigned char>(register_address + i), data[i]);
   }
   return 0;
 #else
@@ -167,8 +168,8 @@ int HilsPortManager::I2cTargetReadRegister(unsigned int port_id, const unsigned
 #ifdef USE_HILS
   components::HilsI2cTargetPort* port = i2c_ports_[port_id];
   if (port == nullptr) return -1;
-  for (unsigned char i = 0; i < length; i++) {
-    data[i] = port->ReadRegister(register_address + i);
+  for (unsigned int i = 0; i < length; i++) {
+    data[i] = (register_address + i > 0xff) ? 0 : port->ReadRegister(static_cast<unsigned char>(register_address + i));
   }
   return 0;
 #else
-- 
2.43.0


From 49af8a838d9bf5da3a7432b4bdf4e45bc1b8b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:55 +0000
Subject: [PATCH 112/138] fix: do not close the hardware port of another
 component after a rejected connection

---
 src/components/base/i2c_controller.cpp                    | 3 ++-
 src/components/base/i2c_controller.hpp                    | 1 +
 src/components/base/i2c_target_communication_with_obc.cpp | 4 ++++
 src/components/base/i2c_target_communication_with_obc.hpp | 1 +
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/components/base/i2c_controller.cpp b/src/components/base/i2c_controller.cpp
index 48a6850..fca9a2b 100644
--- a/src/components/base/i2c_controller.cpp
+++ b/src/components/base/i2c_controller.cpp
@@ -22,6 +22,7 @@ I2cController::I2cController(const unsigned int hils_port_id, const unsigned int
   if (ret != 0) {
     std::cout << "Error: I2cCommunication ConnectComPort ID:" << hils_port_id_ << "\n";
   }
+  is_connected_ = (ret == 0);
 #else
   UNUSED(baud_rate_);
   UNUSED(tx_buffer_size_);
@@ -33,7 +34,7 @@ I2cController::I2cController(const unsigned int hils_port_id, const unsigned int
 }
 
 I2cController::~I2cController() {
-  if (simulation_mode_ != SimulationMode::kHils) return;
+  if (simulation_mode_ != SimulationMode::kHils || !is_connected_) return;
 
   int ret = hils_port_manager_->I2cControllerCloseComPort(hils_port_id_);
   if (ret != 0) {
diff --git a/src/components/base/i2c_controller.hpp b/src/components/base/i2c_controller.hpp
index f300a97..f20d041 100644
--- a/src/components/base/i2c_controller.hpp
+++ b/src/components/base/i2c_controller.hpp
@@ -61,6 +61,7 @@ class I2cController {
   unsigned int baud_rate_;                                   //!< Baud rate of HILS communication port ex. 9600, 115200
   unsigned int tx_buffer_size_;                              //!< TX (Controller to Target) buffer size
   unsigned int rx_buffer_size_;                              //!< RX (Target to Controller) buffer size
+  bool is_connected_ = false;                                //!< Connection flag
   SimulationMode simulation_mode_ = SimulationMode::kError;  //!< Simulation mode (SILS or HILS)
 
   simulation::HilsPortManager* hils_port_manager_;  //!< HILS port manager
diff --git a/src/components/base/i2c_target_communication_with_obc.cpp b/src/components/base/i2c_target_communication_with_obc.cpp
index 7aefe17..7b6424f 100644
--- a/src/components/base/i2c_target_communication_with_obc.cpp
+++ b/src/components/base/i2c_target_communication_with_obc.cpp
@@ -28,6 +28,7 @@ I2cTargetCommunicationWithObc::I2cTargetCommunicationWithObc(const unsigned int
   if (ret != 0) {
     std::cout << "Error: ObcI2cTargetCommunication ConnectComPort ID:" << hils_port_id_ << "\n";
   }
+  is_connected_ = (ret == 0);
 #else
   simulation_mode_ = SimulationMode::kError;
   printf("Error: USE_HILS:OFF Check compo initialization\n");
@@ -44,6 +45,7 @@ I2cTargetCommunicationWithObc::I2cTargetCommunicationWithObc(const unsigned int
   if (ret != 0) {
     std::cout << "Error: ObcI2cTargetCommunication ConnectComPort ID:" << hils_port_id_ << "\n";
   }
+  is_connected_ = (ret == 0);
 #else
   simulation_mode_ = SimulationMode::kSils;
   obc_->I2cConnectPort(sils_port_id_, i2c_address_);
@@ -54,6 +56,7 @@ I2cTargetCommunicationWithObc::I2cTargetCommunicationWithObc(I2cTargetCommunicat
     : sils_port_id_(object.sils_port_id_),
       hils_port_id_(object.hils_port_id_),
       i2c_address_(object.i2c_address_),
+      is_connected_(object.is_connected_),
       simulation_mode_(object.simulation_mode_),
       obc_(object.obc_),
       hils_port_manager_(object.hils_port_manager_) {
@@ -78,6 +81,7 @@ I2cTargetCommunicationWithObc::~I2cTargetCommunicationWithObc() {
       }
       break;
     case SimulationMode::kHils:
+      if (!is_connected_) break;
       ret = hils_port_manager_->I2cTargetCloseComPort(hils_port_id_);
       if (ret != 0) {
         // TODO: Add a flag to select whether to show or hide warnings
diff --git a/src/components/base/i2c_target_communication_with_obc.hpp b/src/components/base/i2c_target_communication_with_obc.hpp
index 5fa5bf2..59efceb 100644
--- a/src/components/base/i2c_target_communication_with_obc.hpp
+++ b/src/components/base/i2c_target_communication_with_obc.hpp
@@ -115,6 +115,7 @@ class I2cTargetCommunicationWithObc {
   unsigned int sils_port_id_;  //!< Port ID for SILS
   unsigned int hils_port_id_;  //!< Port ID for HILS
   unsigned char i2c_address_;  //!< I2C address for the target
+  bool is_connected_ = false;  //!< Connection flag of the HILS port
   bool is_moved_ = false;      //!< Flag to show the object is copied or not
 
   SimulationMode simulation_mode_ = SimulationMode::kError;  //!< Simulation mode
-- 
2.43.0


From 7d29e9cac7c1dd33c3fdd3fc4e0e7ec18c6288b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:55 +0000
Subject: [PATCH 113/138] fix: count only telemetry frames which were written
 to the converter

---
 src/components/ports/hils_i2c_target_port.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/ports/hils_i2c_target_port.cpp b/src/components/ports/hils_i2c_target_port.cpp
index 6d4cd71..46cf1fa 100644
--- a/src/components/ports/hils_i2c_target_port.cpp
+++ b/src/components/ports/hils_i2c_target_port.cpp
@@ -102,7 +102,7 @@ int HilsI2cTargetPort::Send(const unsigned char data_length)  // to I2C-USB Targ
   printf("\n");
 #endif
   int ret = WriteTx(tx_buf, 0, data_length);
-  stored_frame_counter_++;
+  if (ret == 0) stored_frame_counter_++;
   return ret;
 }
 
-- 
2.43.0


From 3ac5226597af1192229b7cc0d11867c240f4fd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:49 +0000
Subject: [PATCH 114/138] fix: do not leave dates and epochs from unreadable
 inputs uninitialized

---
 src/math_physics/time_system/date_time_format.hpp | 12 ++++++------
 src/math_physics/time_system/epoch_time.hpp       |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/math_physics/time_system/date_time_format.hpp b/src/math_physics/time_system/date_time_format.hpp
index 540c6fe..08a0464 100644
--- a/src/math_physics/time_system/date_time_format.hpp
+++ b/src/math_physics/time_system/date_time_format.hpp
@@ -54,12 +54,12 @@ class DateTime {
   std::string GetAsString() const;
 
  private:
-  size_t year_;    //!< Year [0, -]
-  size_t month_;   //!< Month [1, 12]
-  size_t day_;     //!< Day [1 to 31]
-  size_t hour_;    //!< Hour [0 to 23]
-  size_t minute_;  //!< Minute [0 to 59]
-  double second_;  //!< Second [0.0, 60.0)
+  size_t year_ = 0;    //!< Year [0, -]
+  size_t month_ = 1;   //!< Month [1, 12]
+  size_t day_ = 1;     //!< Day [1 to 31]
+  size_t hour_ = 0;    //!< Hour [0 to 23]
+  size_t minute_ = 0;  //!< Minute [0 to 59]
+  double second_ = 0;  //!< Second [0.0, 60.0)
 };
 
 }  // namespace s2e::time_system
diff --git a/src/math_physics/time_system/epoch_time.hpp b/src/math_physics/time_system/epoch_time.hpp
index 72723c0..8569e68 100644
--- a/src/math_physics/time_system/epoch_time.hpp
+++ b/src/math_physics/time_system/epoch_time.hpp
@@ -65,8 +65,8 @@ class EpochTime {
   EpochTime operator-(const EpochTime& right_side) const;
 
  private:
-  uint64_t time_s_;    //!< Number of seconds without leap seconds since 00:00:00 Jan 1 1970 UTC.
-  double fraction_s_;  //!< Fraction of second under 1 sec [0, 1)
+  uint64_t time_s_ = 0;      //!< Number of seconds without leap seconds since 00:00:00 Jan 1 1970 UTC.
+  double fraction_s_ = 0.0;  //!< Fraction of second under 1 sec [0, 1)
 };
 
 }  // namespace s2e::time_system
-- 
2.43.0


From 75aba9bf46fafdbda4618e2ca5bdf90bac5540ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:21 +0000
Subject: [PATCH 115/138] fix: carry a full second in sums and differences of
 epochs

---
 src/math_physics/time_system/epoch_time.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/time_system/epoch_time.cpp b/src/math_physics/time_system/epoch_time.cpp
index cee1a40..483b25f 100644
--- a/src/math_physics/time_system/epoch_time.cpp
+++ b/src/math_physics/time_system/epoch_time.cpp
@@ -57,7 +57,7 @@ bool EpochTime::operator<(const EpochTime& right_side) const {
 EpochTime EpochTime::operator+(const EpochTime& right_side) const {
   time_t time_s = this->time_s_ + right_side.GetTime_s();
   double fraction_s = this->fraction_s_ + right_side.GetFraction_s();
-  if (fraction_s > 1.0) {
+  if (fraction_s >= 1.0) {
     fraction_s -= 1.0;
     time_s += 1;
   }
@@ -71,6 +71,10 @@ EpochTime EpochTime::operator-(const EpochTime& right_side) const {
   if (fraction_s < 0.0) {
     fraction_s += 1.0;
     time_s -= 1;
+    if (fraction_s >= 1.0) {  // rounded up
+      fraction_s = 0.0;
+      time_s += 1;
+    }
   }
   EpochTime result(time_s, fraction_s);
   return result;
-- 
2.43.0


From 2516127026122e213846084159881d876926454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:32 +0000
Subject: [PATCH 116/138] fix: keep the seconds of a date below 60 for
 fractions close to a full second

---
 src/math_physics/time_system/date_time_format.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math_physics/time_system/date_time_format.cpp b/src/math_physics/time_system/date_time_format.cpp
index d470bfe..2938a2a 100644
--- a/src/math_physics/time_system/date_time_format.cpp
+++ b/src/math_physics/time_system/date_time_format.cpp
@@ -40,6 +40,7 @@ DateTime::DateTime(const EpochTime epoch_time) {
   hour_ = sec / 3600;
   minute_ = sec % 3600 / 60;
   second_ = sec % 60 + epoch_time.GetFraction_s();
+  if (second_ >= 60.0) second_ = std::nextafter(60.0, 0.0);  // the sum may be rounded up
 }
 
 std::string DateTime::GetAsString() const {
-- 
2.43.0


From c6bab6ffef69a70ef1aeb091ff5591ceee5f1b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:49 +0000
Subject: [PATCH 117/138] fix: do not read bias SINEX files endlessly when a
 block is not closed

---
 .../gnss/bias_sinex_file_reader.cpp           | 85 ++++++++++++-------
 .../gnss/bias_sinex_file_reader.hpp           | 26 ++++--
 2 files changed, 75 insertions(+), 36 deletions(-)

diff --git a/src/math_physics/gnss/bias_sinex_file_reader.cpp b/src/math_physics/gnss/bias_sinex_file_reader.cpp
index b8a203c..4fcfaf3 100644
--- a/src/math_physics/gnss/bias_sinex_file_reader.cpp
+++ b/src/math_physics/gnss/bias_sinex_file_reader.cpp
@@ -37,114 +37,138 @@ bool BiasSinexFileReader::ReadFile(const std::string file_name) {
     }
     // File/Reference
     if (line.find("+FILE/REFERENCE") == 0) {
-      ReadFileReference(bias_sinex_file);
+      if (!ReadFileReference(bias_sinex_file)) {
+        return ReportIncompleteFile(file_name);
+      }
       continue;
     }
     // File/Comment
     if (line.find("+FILE/COMMENT") == 0) {
-      ReadFileComment(bias_sinex_file);
+      if (!ReadFileComment(bias_sinex_file)) {
+        return ReportIncompleteFile(file_name);
+      }
       continue;
     }
     // Input/Acknowledgments
     if (line.find("+INPUT/ACKNOWLEDGMENTS") == 0) {
-      ReadInputAcknowledgments(bias_sinex_file);
+      if (!ReadInputAcknowledgments(bias_sinex_file)) {
+        return ReportIncompleteFile(file_name);
+      }
       continue;
     }
     // Bias/Description
     if (line.find("+BIAS/DESCRIPTION") == 0) {
-      ReadBiasDescription(bias_sinex_file);
+      if (!ReadBiasDescription(bias_sinex_file)) {
+        return ReportIncompleteFile(file_name);
+      }
       continue;
     }
     // Bias/ReceiverInformation
     if (line.find("+BIAS/RECEIVER_INFORMATION") == 0) {
-      ReadBiasReceiverInformation(bias_sinex_file);
+      if (!ReadBiasReceiverInformation(bias_sinex_file)) {
+        return ReportIncompleteFile(file_name);
+      }
       continue;
     }
     // Bias/Solution
     if (line.find("+BIAS/SOLUTION") == 0) {
-      ReadBiasSolution(bias_sinex_file);
+      if (!ReadBiasSolution(bias_sinex_file)) {
+        return ReportIncompleteFile(file_name);
+      }
       continue;
     }
   }
 
+  if (bias_sinex_file.bad()) {
+    return ReportIncompleteFile(file_name);
+  }
+
   // Read epoch wise data
   bias_sinex_file.close();
   return true;
 }
 
-void BiasSinexFileReader::ReadFileReference(std::ifstream& bias_sinex_file) {
+bool BiasSinexFileReader::ReportIncompleteFile(const std::string file_name) const {
+  std::cout << "[Warning] Bias SINEX file is not complete: " << file_name << std::endl;
+  return false;
+}
+
+bool BiasSinexFileReader::ReadFileReference(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-FILE/REFERENCE") == 0) {
-      break;
+      return true;
     }
     // TODO: read information
   }
+  return false;  // The end of the block is not found
 }
 
-void BiasSinexFileReader::ReadFileComment(std::ifstream& bias_sinex_file) {
+bool BiasSinexFileReader::ReadFileComment(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-FILE/COMMENT") == 0) {
-      break;
+      return true;
     }
     // TODO: read information
   }
+  return false;  // The end of the block is not found
 }
 
-void BiasSinexFileReader::ReadInputAcknowledgments(std::ifstream& bias_sinex_file) {
+bool BiasSinexFileReader::ReadInputAcknowledgments(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-INPUT/ACKNOWLEDGMENTS") == 0) {
-      break;
+      return true;
     }
     // TODO: read information
   }
+  return false;  // The end of the block is not found
 }
 
-void BiasSinexFileReader::ReadBiasDescription(std::ifstream& bias_sinex_file) {
+bool BiasSinexFileReader::ReadBiasDescription(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-BIAS/DESCRIPTION") == 0) {
-      break;
+      return true;
     }
     // TODO: read information
   }
+  return false;  // The end of the block is not found
 }
 
-void BiasSinexFileReader::ReadBiasReceiverInformation(std::ifstream& bias_sinex_file) {
+bool BiasSinexFileReader::ReadBiasReceiverInformation(std::ifstream& bias_sinex_file) {
   std::string line;
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-BIAS/RECEIVER_INFORMATION") == 0) {
-      break;
+      return true;
     }
     // TODO: read information
   }
+  return false;  // The end of the block is not found
 }
 
-void BiasSinexFileReader::ReadBiasSolution(std::ifstream& bias_sinex_file) {
+bool BiasSinexFileReader::ReadBiasSolution(std::ifstream& bias_sinex_file) {
   std::string line;
 
-  while (1) {
-    std::getline(bias_sinex_file, line);
+  while (std::getline(bias_sinex_file, line)) {
     // End of data
     if (line.find("-BIAS/SOLUTION") == 0) {
-      break;
+      return true;
     }
     // Skip comments
     if (line.find("*") == 0) {
       continue;
     }
+    // The last line is not complete
+    if (bias_sinex_file.eof()) {
+      return false;
+    }
     // data read
     BiasSolutionData solution_data;
     size_t read_point = 1;
@@ -206,6 +230,7 @@ void BiasSinexFileReader::ReadBiasSolution(std::ifstream& bias_sinex_file) {
 
     solution_data_.push_back(solution_data);
   }
+  return false;  // The end of the block is not found
 }
 
 void BiasSolutionData::SetIdentifier(const std::string identifier) {
diff --git a/src/math_physics/gnss/bias_sinex_file_reader.hpp b/src/math_physics/gnss/bias_sinex_file_reader.hpp
index 694a9bc..4572fb1 100644
--- a/src/math_physics/gnss/bias_sinex_file_reader.hpp
+++ b/src/math_physics/gnss/bias_sinex_file_reader.hpp
@@ -148,42 +148,56 @@ class BiasSinexFileReader {
    */
   bool ReadFile(const std::string file_name);
 
+  /**
+   * @fn ReportIncompleteFile
+   * @brief Show a warning for a file which cannot be read to the end
+   * @param[in] file_name: File path to the bias SINEX file
+   * @return false
+   */
+  bool ReportIncompleteFile(const std::string file_name) const;
+
   /**
    * @fn ReadFileReference
    * @brief Read File/Reference data
    * @param[in] bias_sinex_file: bias SINEX file stream
+   * @return true: the end of the block is found, false: the file ends within the block
    */
-  void ReadFileReference(std::ifstream& bias_sinex_file);
+  bool ReadFileReference(std::ifstream& bias_sinex_file);
   /**
    * @fn ReadFileComment
    * @brief Read File/Comment data
    * @param[in] bias_sinex_file: bias SINEX file stream
+   * @return true: the end of the block is found, false: the file ends within the block
    */
-  void ReadFileComment(std::ifstream& bias_sinex_file);
+  bool ReadFileComment(std::ifstream& bias_sinex_file);
   /**
    * @fn ReadInputAcknowledgments
    * @brief Read Input/Acknowledgments data
    * @param[in] bias_sinex_file: bias SINEX file stream
+   * @return true: the end of the block is found, false: the file ends within the block
    */
-  void ReadInputAcknowledgments(std::ifstream& bias_sinex_file);
+  bool ReadInputAcknowledgments(std::ifstream& bias_sinex_file);
   /**
    * @fn ReadBiasDescription
    * @brief Read Bias/Description data
    * @param[in] bias_sinex_file: bias SINEX file stream
+   * @return true: the end of the block is found, false: the file ends within the block
    */
-  void ReadBiasDescription(std::ifstream& bias_sinex_file);
+  bool ReadBiasDescription(std::ifstream& bias_sinex_file);
   /**
    * @fn ReadBiasReceiverInformation
    * @brief Read Bias/ReceiverInformation data
    * @param[in] bias_sinex_file: bias SINEX file stream
+   * @return true: the end of the block is found, false: the file ends within the block
    */
-  void ReadBiasReceiverInformation(std::ifstream& bias_sinex_file);
+  bool ReadBiasReceiverInformation(std::ifstream& bias_sinex_file);
   /**
    * @fn ReadSolution
    * @brief Read Bias/Solution data
    * @param[in] bias_sinex_file: bias SINEX file stream
+   * @return true: the end of the block is found, false: the file ends within the block
    */
-  void ReadBiasSolution(std::ifstream& bias_sinex_file);
+  bool ReadBiasSolution(std::ifstream& bias_sinex_file);
 };
 
 }  // namespace s2e::gnss
-- 
2.43.0


From ea57f61382e1782f1102d27f383524991178c222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:49 +0000
Subject: [PATCH 118/138] fix: read slopes at the end of lines of bias SINEX
 files

---
 src/math_physics/gnss/bias_sinex_file_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/gnss/bias_sinex_file_reader.cpp b/src/math_physics/gnss/bias_sinex_file_reader.cpp
index 4fcfaf3..30b1b2b 100644
--- a/src/math_physics/gnss/bias_sinex_file_reader.cpp
+++ b/src/math_physics/gnss/bias_sinex_file_reader.cpp
@@ -217,12 +217,12 @@ bool BiasSinexFileReader::ReadBiasSolution(std::ifstream& bias_sinex_file) {
     solution_data.SetBiasStandardDeviation(std::stod(line.substr(read_point, read_size)));
     read_point += read_size + 1;
 
-    if (read_point + 21 < line.size()) {
+    if (line.find_first_not_of(" \r", read_point) != std::string::npos) {
       read_size = 21;
       solution_data.SetSlope_ns_s(std::stod(line.substr(read_point, read_size)));
       read_point += read_size + 1;
     }
-    if (read_point + 12 < line.size()) {
+    if (line.find_first_not_of(" \r", read_point) != std::string::npos) {
       read_size = 12;
       solution_data.SetSlopeStandardDeviation_ns_s(std::stod(line.substr(read_point, read_size)));
       read_point += read_size + 1;
-- 
2.43.0


From 03b6a581770de1587564f96ba9d5d4549e10abb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:49 +0000
Subject: [PATCH 119/138] fix: check the index of bias data

---
 src/math_physics/gnss/bias_sinex_file_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/gnss/bias_sinex_file_reader.hpp b/src/math_physics/gnss/bias_sinex_file_reader.hpp
index 4572fb1..3fb8405 100644
--- a/src/math_physics/gnss/bias_sinex_file_reader.hpp
+++ b/src/math_physics/gnss/bias_sinex_file_reader.hpp
@@ -134,7 +134,7 @@ class BiasSinexFileReader {
    * @param[in] index: Index of bias solution data
    * @return File read success flag
    */
-  inline BiasSolutionData GetBiasData(const size_t index) const { return solution_data_[index]; }
+  inline BiasSolutionData GetBiasData(const size_t index) const { return solution_data_.at(index); }
 
  private:
   bool is_file_read_succeeded_;                  //!< File read success flag
-- 
2.43.0


From b00aee844f91b10a04618363ce9891b4546ee2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:30 +0000
Subject: [PATCH 120/138] fix: do not read ANTEX files endlessly when an
 antenna is not closed

---
 src/math_physics/gnss/antex_file_reader.cpp | 53 ++++++++++++---------
 src/math_physics/gnss/antex_file_reader.hpp | 21 ++++++--
 2 files changed, 47 insertions(+), 27 deletions(-)

diff --git a/src/math_physics/gnss/antex_file_reader.cpp b/src/math_physics/gnss/antex_file_reader.cpp
index 4a3c74f..baeaa69 100644
--- a/src/math_physics/gnss/antex_file_reader.cpp
+++ b/src/math_physics/gnss/antex_file_reader.cpp
@@ -77,22 +77,30 @@ bool AntexFileReader::ReadFile(const std::string file_name) {
     }
     // Start antenna
     if (line.find("START OF ANTENNA") == ANTEX_LINE_TYPE_POSITION) {
-      ReadAntexData(antex_file);
+      if (!ReadAntexData(antex_file)) {
+        return ReportIncompleteFile(file_name);
+      }
     }
   }
+  if (antex_file.bad()) {
+    return ReportIncompleteFile(file_name);
+  }
 
   // Read epoch wise data
   antex_file.close();
   return true;
 }
 
-void AntexFileReader::ReadAntexData(std::ifstream& antex_file) {
+bool AntexFileReader::ReportIncompleteFile(const std::string file_name) const {
+  std::cout << "[Warning] Antex file is not complete: " << file_name << std::endl;
+  return false;
+}
+
+bool AntexFileReader::ReadAntexData(std::ifstream& antex_file) {
   AntexSatelliteData antex_data;
 
   std::string line;
-  while (1) {
-    std::getline(antex_file, line);
-
+  while (std::getline(antex_file, line)) {
     // Type and Serial No.
     if (line.find("TYPE / SERIAL NO") == ANTEX_LINE_TYPE_POSITION) {
       std::string antenna_type = line.substr(0, 20);
@@ -105,29 +113,29 @@ void AntexFileReader::ReadAntexData(std::ifstream& antex_file) {
       } else {
         // GNSS satellite
         AntexSatelliteData antex_satellite_data;
-        antex_satellite_data = ReadAntexSatelliteData(antex_file);
+        if (!ReadAntexSatelliteData(antex_file, antex_satellite_data)) {
+          return false;
+        }
         antex_satellite_data.SetAntennaType(antenna_type);
         antex_satellite_data.SetSerialNumber(serial_number);
         antex_satellite_data_[satellite_index].push_back(antex_satellite_data);
       }
-      break;
+      return true;
     }
   }
+  return false;  // The type of the antenna is not found
 }
 
-AntexSatelliteData AntexFileReader::ReadAntexSatelliteData(std::ifstream& antex_file) {
-  AntexSatelliteData antex_data;
+bool AntexFileReader::ReadAntexSatelliteData(std::ifstream& antex_file, AntexSatelliteData& antex_data) {
   AntexGridDefinition grid;
   std::vector<AntexPhaseCenterData> phase_center_data_list;
 
   std::string line;
-  while (1) {
-    std::getline(antex_file, line);
-
+  while (std::getline(antex_file, line)) {
     // End antenna data
     if (line.find("END OF ANTENNA") == ANTEX_LINE_TYPE_POSITION) {
       antex_data.SetPhaseCenterData(phase_center_data_list);
-      break;
+      return true;
     }
     // Grid angle definition
     if (line.find("ZEN1 / ZEN2 / DZEN") == ANTEX_LINE_TYPE_POSITION) {
@@ -149,25 +157,26 @@ AntexSatelliteData AntexFileReader::ReadAntexSatelliteData(std::ifstream& antex_
     }
     // Frequency
     if (line.find("START OF FREQUENCY") == ANTEX_LINE_TYPE_POSITION) {
-      AntexPhaseCenterData phase_center_data = ReadPhaseCenterData(antex_file, grid);
+      AntexPhaseCenterData phase_center_data;
+      if (!ReadPhaseCenterData(antex_file, grid, phase_center_data)) {
+        return false;
+      }
       phase_center_data_list.push_back(phase_center_data);
     }
   }
 
-  return antex_data;
+  return false;  // The end of the antenna is not found
 }
 
-AntexPhaseCenterData AntexFileReader::ReadPhaseCenterData(std::ifstream& antex_file, const AntexGridDefinition grid_information) {
-  AntexPhaseCenterData phase_center_data;
+bool AntexFileReader::ReadPhaseCenterData(std::ifstream& antex_file, const AntexGridDefinition grid_information,
+                                          AntexPhaseCenterData& phase_center_data) {
   std::string line;
-  while (1) {
-    std::getline(antex_file, line);
-
+  while (std::getline(antex_file, line)) {
     // End antenna data
     if (line.find("END OF FREQUENCY") == ANTEX_LINE_TYPE_POSITION) {
       phase_center_data.SetFrequencyName(line.substr(3, 3));
       phase_center_data.SetGridInformation(grid_information);
-      break;
+      return true;
     }
     // Phase center offset
     if (line.find("NORTH / EAST / UP") == ANTEX_LINE_TYPE_POSITION) {
@@ -189,7 +198,7 @@ AntexPhaseCenterData AntexFileReader::ReadPhaseCenterData(std::ifstream& antex_f
     // TODO: implement DAZI
   }
 
-  return phase_center_data;
+  return false;  // The end of the frequency is not found
 }
 
 time_system::DateTime AntexFileReader::ReadDateTime(std::string line) {
diff --git a/src/math_physics/gnss/antex_file_reader.hpp b/src/math_physics/gnss/antex_file_reader.hpp
index b463c5f..613dd8a 100644
--- a/src/math_physics/gnss/antex_file_reader.hpp
+++ b/src/math_physics/gnss/antex_file_reader.hpp
@@ -315,27 +315,38 @@ class AntexFileReader {
    */
   bool ReadFile(const std::string file_name);
 
+  /**
+   * @fn ReportIncompleteFile
+   * @brief Show a warning for a file which cannot be read to the end
+   * @param[in] file_name: File path to the ANTEX file
+   * @return false
+   */
+  bool ReportIncompleteFile(const std::string file_name) const;
+
   /**
    * @fn ReadAntexData
    * @brief Read ANTEX body data
    * @param[in] antex_file: ANTEX file stream
+   * @return true: read success, false: the file ends within the antenna
    */
-  void ReadAntexData(std::ifstream& antex_file);
+  bool ReadAntexData(std::ifstream& antex_file);
   /**
    * @fn ReadAntexSatelliteData
    * @brief Read ANTEX body data for GNSS satellite
    * @param[in] antex_file: ANTEX file stream
-   * @return ANTEX data for GNSS satellite
+   * @param[out] antex_data: ANTEX data for GNSS satellite
+   * @return true: read success, false: the file ends within the antenna
    */
-  AntexSatelliteData ReadAntexSatelliteData(std::ifstream& antex_file);
+  bool ReadAntexSatelliteData(std::ifstream& antex_file, AntexSatelliteData& antex_data);
   /**
    * @fn ReadPhaseCenterData
    * @brief Read phase center data
    * @param[in] antex_file: ANTEX file stream
    * @param[in] grid_size: Grid size
-   * @return ANTEX phase center data
+   * @param[out] phase_center_data: ANTEX phase center data
+   * @return true: read success, false: the file ends within the frequency
    */
-  AntexPhaseCenterData ReadPhaseCenterData(std::ifstream& antex_file, const AntexGridDefinition grid_information);
+  bool ReadPhaseCenterData(std::ifstream& antex_file, const AntexGridDefinition grid_information, AntexPhaseCenterData& phase_center_data);
   /**
    * @fn ReadDateTime
    * @brief Read date time information in ANTEX file
-- 
2.43.0


From c741eb3dc4dea0a90ee3b6c8f55e3e39e700d845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:03 +0000
Subject: [PATCH 121/138] fix: do not lose the last zenith angle of ANTEX grids
 with fractional steps

---
 src/math_physics/gnss/antex_file_reader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/gnss/antex_file_reader.cpp b/src/math_physics/gnss/antex_file_reader.cpp
index baeaa69..33ca18b 100644
--- a/src/math_physics/gnss/antex_file_reader.cpp
+++ b/src/math_physics/gnss/antex_file_reader.cpp
@@ -14,6 +14,8 @@ namespace s2e::gnss {
 
 #define ANTEX_LINE_TYPE_POSITION (60)
 
+static const double kRoundingMargin = 1.0e-6;  //!< Margin for the rounding of the number of grid steps
+
 AntexGridDefinition::AntexGridDefinition(const double zenith_start_angle_deg, const double zenith_end_angle_deg, const double zenith_step_angle_deg,
                                          const double azimuth_step_angle_deg)
     : zenith_start_angle_deg_(zenith_start_angle_deg),
@@ -23,13 +25,13 @@ AntexGridDefinition::AntexGridDefinition(const double zenith_start_angle_deg, co
   if (zenith_step_angle_deg_ <= 0.0) {
     number_of_zenith_grid_ = 0;
   } else {
-    number_of_zenith_grid_ = size_t((zenith_end_angle_deg_ - zenith_start_angle_deg_) / zenith_step_angle_deg_) + 1;
+    number_of_zenith_grid_ = size_t((zenith_end_angle_deg_ - zenith_start_angle_deg_) / zenith_step_angle_deg_ + kRoundingMargin) + 1;
   }
 
   if (azimuth_step_angle_deg_ <= 0.0) {
     number_of_azimuth_grid_ = 0;
   } else {
-    number_of_azimuth_grid_ = size_t(360.0 / azimuth_step_angle_deg_) + 1;
+    number_of_azimuth_grid_ = size_t(360.0 / azimuth_step_angle_deg_ + kRoundingMargin) + 1;
   }
 }
 
-- 
2.43.0


From 729034563918ff7e2a214feeb389574dbfb7c00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:12 +0000
Subject: [PATCH 122/138] fix: check the index of ANTEX phase center data

---
 src/math_physics/gnss/antex_file_reader.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_physics/gnss/antex_file_reader.hpp b/src/math_physics/gnss/antex_file_reader.hpp
index 613dd8a..6076cc6 100644
--- a/src/math_physics/gnss/antex_file_reader.hpp
+++ b/src/math_physics/gnss/antex_file_reader.hpp
@@ -251,7 +251,7 @@ class AntexSatelliteData {
    * @param[in] frequency_index: Frequency index start from 0
    * @return Antenna phase center data
    */
-  inline AntexPhaseCenterData GetPhaseCenterData(const size_t frequency_index) const { return phase_center_data_[frequency_index]; };
+  inline AntexPhaseCenterData GetPhaseCenterData(const size_t frequency_index) const { return phase_center_data_.at(frequency_index); };
 
  private:
   std::string antenna_type_;                             //!< Antenna type
-- 
2.43.0


From 761dfc1531154cbac0ead01640af7f4abb3ac35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:36 +0000
Subject: [PATCH 123/138] fix: do not take serial numbers of receiver antennas
 for satellite codes

---
 src/math_physics/gnss/antex_file_reader.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/math_physics/gnss/antex_file_reader.cpp b/src/math_physics/gnss/antex_file_reader.cpp
index 33ca18b..04de84e 100644
--- a/src/math_physics/gnss/antex_file_reader.cpp
+++ b/src/math_physics/gnss/antex_file_reader.cpp
@@ -98,6 +98,17 @@ bool AntexFileReader::ReportIncompleteFile(const std::string file_name) const {
   return false;
 }
 
+/**
+ * @fn IsSatelliteCode
+ * @brief Distinguish satellite codes (e.g. G01) from serial numbers of receiver antennas
+ * @param[in] serial_number: Contents of the serial number field
+ * @return true: satellite code
+ */
+static bool IsSatelliteCode(const std::string serial_number) {
+  return serial_number.find_first_of("0123456789") == 1 && serial_number.find_first_not_of("0123456789", 1) == 3 &&
+         serial_number.find_first_not_of(' ', 3) == std::string::npos;
+}
+
 bool AntexFileReader::ReadAntexData(std::ifstream& antex_file) {
   AntexSatelliteData antex_data;
 
@@ -107,7 +118,10 @@ bool AntexFileReader::ReadAntexData(std::ifstream& antex_file) {
     if (line.find("TYPE / SERIAL NO") == ANTEX_LINE_TYPE_POSITION) {
       std::string antenna_type = line.substr(0, 20);
       std::string serial_number = line.substr(20, 20);
-      size_t satellite_index = ConvertGnssSatelliteNumberToIndex(serial_number);
+      size_t satellite_index = UINT32_MAX;
+      if (IsSatelliteCode(serial_number)) {
+        satellite_index = ConvertGnssSatelliteNumberToIndex(serial_number);
+      }
 
       if (satellite_index == UINT32_MAX) {
         // receiver
-- 
2.43.0


From ca6b59e2364eaba7676a509ae4ff1ebbbea720e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:03 +0000
Subject: [PATCH 124/138] fix: do not read SP3 files endlessly when the header
 is not completed

---
 src/math_physics/gnss/sp3_file_reader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 51acd47..4c39a90 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -225,6 +225,7 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
   header_.number_of_satellites_ = std::stoi(line.substr(3, 3));
   const size_t kMaxSatelliteNumberOneLine = 17;
   while (line.find("+ ") == 0) {
+    if (!sp3_file.good()) return 0;
     for (size_t i = 0; i < kMaxSatelliteNumberOneLine; i++) {
       if (header_.satellite_ids_.size() >= header_.number_of_satellites_) {
         break;
@@ -246,6 +247,7 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
     return 0;
   }
   while (line.find("++") == 0) {
+    if (!sp3_file.good()) return 0;
     for (size_t i = 0; i < kMaxSatelliteNumberOneLine; i++) {
       if (header_.satellite_accuracy_.size() >= header_.number_of_satellites_) {
         break;
@@ -310,6 +312,7 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
     line_number++;
     pos = sp3_file.tellg();
     std::getline(sp3_file, line);
+    if (!sp3_file.good()) return 0;
   } while (line.find("/*") == 0);
 
   sp3_file.seekg(pos);
-- 
2.43.0


From 27763d36432d11eb7edd1ce26178f71aba7efabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:03 +0000
Subject: [PATCH 125/138] fix: do not take the values of a truncated line of
 SP3 files

---
 src/math_physics/gnss/sp3_file_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 4c39a90..afe6f14 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -90,7 +90,7 @@ bool Sp3FileReader::ReadAllData(const std::string file_name) {
     for (size_t satellite_id = 0; satellite_id < header_.number_of_satellites_; satellite_id++) {
       std::getline(sp3_file, line);
       // Position and Clock
-      if (line.find("P") != 0) {
+      if (line.find("P") != 0 || !sp3_file.good()) {
         std::cout << "[Warning] SP3 file position and clock data first character error: " << line << std::endl;
         return false;
       }
@@ -111,7 +111,7 @@ bool Sp3FileReader::ReadAllData(const std::string file_name) {
       if (header_.mode_ == Sp3Mode::kVelocity) {
         std::getline(sp3_file, line);
         // Position and Clock
-        if (line.find("V") != 0) {
+        if (line.find("V") != 0 || !sp3_file.good()) {
           std::cout << "[Warning] SP3 file position and clock data first character error: " << line << std::endl;
           return false;
         }
-- 
2.43.0


From 3979d9d1b4bae46f5610d6a950399693858c9395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:29 +0000
Subject: [PATCH 126/138] fix: do not read behind the end of the first line of
 SP3 files

---
 src/math_physics/gnss/sp3_file_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index afe6f14..fd81fe6 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -168,6 +168,10 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
     std::cout << "[Warning] SP3 file version is not supported: " << line << std::endl;
     std::cout << "We recommend to use SP3-d. " << std::endl;
   }
+  if (line.size() < 3) {
+    std::cout << "[Warning] SP3 file 1st line is too short: " << line << std::endl;
+    return 0;
+  }
   // Read contents
   if (line[2] == 'P') {
     header_.mode_ = Sp3Mode::kPosition;
-- 
2.43.0


From 2fc1018d7d2f4a2b81d945bc842190bc49148d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:46 +0000
Subject: [PATCH 127/138] fix: do not leave dates and grids from unreadable
 lines of ANTEX and SP3 files uninitialized

---
 src/math_physics/gnss/antex_file_reader.cpp | 6 +++---
 src/math_physics/gnss/sp3_file_reader.cpp   | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/math_physics/gnss/antex_file_reader.cpp b/src/math_physics/gnss/antex_file_reader.cpp
index 04de84e..64bb589 100644
--- a/src/math_physics/gnss/antex_file_reader.cpp
+++ b/src/math_physics/gnss/antex_file_reader.cpp
@@ -155,7 +155,7 @@ bool AntexFileReader::ReadAntexSatelliteData(std::ifstream& antex_file, AntexSat
     }
     // Grid angle definition
     if (line.find("ZEN1 / ZEN2 / DZEN") == ANTEX_LINE_TYPE_POSITION) {
-      double start, end, step;
+      double start = 0.0, end = 0.0, step = 0.0;
       sscanf(line.substr(0, 60).c_str(), "%lf %lf %lf", &start, &end, &step);
       grid = AntexGridDefinition(start, end, step);
     }
@@ -218,8 +218,8 @@ bool AntexFileReader::ReadPhaseCenterData(std::ifstream& antex_file, const Antex
 }
 
 time_system::DateTime AntexFileReader::ReadDateTime(std::string line) {
-  size_t year, month, day, hour, minute;
-  double second;
+  size_t year = 0, month = 1, day = 1, hour = 0, minute = 0;
+  double second = 0.0;
   sscanf(line.c_str(), "%zu %2zu %2zu %2zu %2zu %10lf", &year, &month, &day, &hour, &minute, &second);
   return time_system::DateTime(year, month, day, hour, minute, second);
 }
diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index fd81fe6..353e905 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -81,8 +81,8 @@ bool Sp3FileReader::ReadAllData(const std::string file_name) {
       std::cout << "[Warning] SP3 file Epoch line first character error: " << line << std::endl;
       return false;
     }
-    size_t year, month, day, hour, minute;
-    double second;
+    size_t year = 0, month = 1, day = 1, hour = 0, minute = 0;
+    double second = 0.0;
     sscanf(line.substr(3, 28).c_str(), "%zu %2zu %2zu %2zu %2zu %12lf", &year, &month, &day, &hour, &minute, &second);
     epoch_.push_back(time_system::DateTime(year, month, day, hour, minute, second));
 
@@ -181,8 +181,8 @@ size_t Sp3FileReader::ReadHeader(std::ifstream& sp3_file) {
     header_.mode_ = Sp3Mode::kOther;
     std::cout << "[Warning] SP3 file mode is undefined: " << line << std::endl;
   }
-  size_t year, month, day, hour, minute;
-  double second;
+  size_t year = 0, month = 1, day = 1, hour = 0, minute = 0;
+  double second = 0.0;
   sscanf(line.substr(3, 28).c_str(), "%zu %2zu %2zu %2zu %2zu %12lf", &year, &month, &day, &hour, &minute, &second);
   header_.start_epoch_ = time_system::DateTime(year, month, day, hour, minute, second);
   header_.number_of_epoch_ = std::stoi(line.substr(32, 7));
-- 
2.43.0


From 21787866922272483b30953b86b46770068f3bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:28 +0000
Subject: [PATCH 128/138] fix: use the mass of a molecule for the speed ratio
 of air drag

---
 src/disturbances/air_drag.cpp                 | 3 ++-
 src/environment/global/physical_constants.hpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/disturbances/air_drag.cpp b/src/disturbances/air_drag.cpp
index 2c92540..03ea902 100644
--- a/src/disturbances/air_drag.cpp
+++ b/src/disturbances/air_drag.cpp
@@ -64,8 +64,9 @@ void AirDrag::CalcCnCt(const math::Vector<3>& velocity_b_m_s) {
   double velocity_norm_m_s = velocity_b_m_s.CalcNorm();
 
   // Re-emitting speed
+  const double molecular_mass_kg = molecular_weight_g_mol_ * 1.0e-3 / environment::avogadro_constant_1_mol;
   double speed =
-      sqrt(molecular_weight_g_mol_ * velocity_norm_m_s * velocity_norm_m_s / (2.0 * environment::boltzmann_constant_J_K * wall_temperature_K_));
+      sqrt(molecular_mass_kg * velocity_norm_m_s * velocity_norm_m_s / (2.0 * environment::boltzmann_constant_J_K * wall_temperature_K_));
   // CalcTheta(vel_b);
   for (size_t i = 0; i < surfaces_.size(); i++) {
     double speed_n = speed * cos_theta_[i];
diff --git a/src/environment/global/physical_constants.hpp b/src/environment/global/physical_constants.hpp
index c97259e..5e1d6e8 100644
--- a/src/environment/global/physical_constants.hpp
+++ b/src/environment/global/physical_constants.hpp
@@ -21,6 +21,7 @@ using enable_if_float = std::enable_if_t<std::is_floating_point_v<T>, T>;
 inline namespace physics {
 DEFINE_PHYSICAL_CONSTANT(speed_of_light_m_s, 299792458.0L)                   //!< Speed of light in vacuum [m/s]
 DEFINE_PHYSICAL_CONSTANT(boltzmann_constant_J_K, 1.380649e-23L)              //!< Boltzmann constant [J/K]
+DEFINE_PHYSICAL_CONSTANT(avogadro_constant_1_mol, 6.02214076e23L)            //!< Avogadro constant [1/mol]
 DEFINE_PHYSICAL_CONSTANT(stefan_boltzmann_constant_W_m2K4, 5.670374419e-8L)  //!< Stefan-Boltzmann constant [W/m2K4]
 DEFINE_PHYSICAL_CONSTANT(absolute_zero_degC, -273.15L)                       //!< Absolute zero [degC]
 DEFINE_PHYSICAL_CONSTANT(solar_constant_W_m2, 1.366e3L)                      //!< Solar constant [W/m2]
-- 
2.43.0


From 13ff54201ed94d00300206c68c9bb754bc97c441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:28 +0000
Subject: [PATCH 129/138] fix: convert the temperatures of air drag with the
 absolute zero

---
 src/disturbances/air_drag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/disturbances/air_drag.cpp b/src/disturbances/air_drag.cpp
index 03ea902..7fa1cd3 100644
--- a/src/disturbances/air_drag.cpp
+++ b/src/disturbances/air_drag.cpp
@@ -101,8 +101,8 @@ AirDrag InitAirDrag(const std::string initialize_file_path, const std::vector<sp
   auto conf = setting_file_reader::IniAccess(initialize_file_path);
   const char* section = "AIR_DRAG";
 
-  const double wall_temperature_K = conf.ReadDouble(section, "wall_temperature_degC") + 273.0;
-  const double molecular_temperature_K = conf.ReadDouble(section, "molecular_temperature_degC") + 273.0;
+  const double wall_temperature_K = environment::degC2K(conf.ReadDouble(section, "wall_temperature_degC"));
+  const double molecular_temperature_K = environment::degC2K(conf.ReadDouble(section, "molecular_temperature_degC"));
   const double molecular_weight_g_mol = conf.ReadDouble(section, "molecular_weight_g_mol");
 
   const bool is_calc_enable = conf.ReadEnable(section, INI_CALC_LABEL);
-- 
2.43.0


From f25e24818ab8f83df932d60c3f02c9e87fe8337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:08 +0000
Subject: [PATCH 130/138] fix: stop reading damaged lunar gravity coefficient
 files without terminating the program

---
 src/disturbances/lunar_gravity_field.cpp | 33 +++++++++++-------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/src/disturbances/lunar_gravity_field.cpp b/src/disturbances/lunar_gravity_field.cpp
index 658e798..34d9d81 100644
--- a/src/disturbances/lunar_gravity_field.cpp
+++ b/src/disturbances/lunar_gravity_field.cpp
@@ -11,6 +11,7 @@
 #include <fstream>
 #include <iostream>
 #include <setting_file_reader/initialize_file_access.hpp>
+#include <sstream>
 
 #include "../logger/log_utility.hpp"
 #include "../utilities/macros.hpp"
@@ -59,30 +60,26 @@ bool LunarGravityField::ReadCoefficientsGrgm1200a(std::string file_name) {
   }
 
   // Read header
-  std::string line, cell;
-  getline(coeff_file, cell, ',');
-  reference_radius_km_ = std::stod(cell);
-  getline(coeff_file, cell, ',');
-  gravity_constants_km3_s2_ = std::stod(cell);
-  // next line
+  std::string line;
+  char delimiter = ',';
   getline(coeff_file, line);
+  std::istringstream header(line);
+  header >> reference_radius_km_ >> delimiter >> gravity_constants_km3_s2_;
+  if (!header || delimiter != ',') {
+    std::cerr << "File format error: LunarGravityField\n";
+    return false;
+  }
 
   size_t num_coeff = ((degree_ + 1) * (degree_ + 2) / 2) - 1;  // -1 for C00
   for (size_t i = 0; i < num_coeff; i++) {
-    // degree
-    getline(coeff_file, line, ',');
-    int n = std::stoi(line);
-    getline(coeff_file, line, ',');
-    int m = std::stoi(line);
-    // coefficients
-    getline(coeff_file, line, ',');
-    double c_nm_norm = std::stod(line);
-    getline(coeff_file, line, ',');
-    double s_nm_norm = std::stod(line);
-    // next line
+    int n, m;
+    double c_nm_norm, s_nm_norm;
+    char delimiters[3] = {',', ',', ','};
     getline(coeff_file, line);
+    std::istringstream row(line);
+    row >> n >> delimiters[0] >> m >> delimiters[1] >> c_nm_norm >> delimiters[2] >> s_nm_norm;
 
-    if (n < 0 || m < 0 || n > (int)degree_ || m > n) {
+    if (!row || delimiters[0] != ',' || delimiters[1] != ',' || delimiters[2] != ',' || n < 0 || m < 0 || n > (int)degree_ || m > n) {
       std::cerr << "File format error: LunarGravityField\n";
       return false;
     }
-- 
2.43.0


From 483d94ba1e8fac8072bc0e983e9d7d040962e494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:31 +0000
Subject: [PATCH 131/138] fix: make the jitter force of a reaction wheel
 available to its users

---
 src/components/real/aocs/reaction_wheel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/components/real/aocs/reaction_wheel.hpp b/src/components/real/aocs/reaction_wheel.hpp
index 39aa76a..47bd344 100644
--- a/src/components/real/aocs/reaction_wheel.hpp
+++ b/src/components/real/aocs/reaction_wheel.hpp
@@ -126,7 +126,7 @@ class ReactionWheel : public Component, public logger::ILoggable {
    * @fn GetJitterForce_b_N
    * @brief Return output force by jitter in the body fixed frame [N]
    */
-  inline const math::Vector<3> GetJitterForce_b_N() const;
+  const math::Vector<3> GetJitterForce_b_N() const;
   /**
    * @fn GetDriveFlag
    * @brief Return drive flag
-- 
2.43.0


From b59cf3ca8fbd34c059a5b0f700050b43ad7c213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:53 +0000
Subject: [PATCH 132/138] fix: apply the configured noise to the air density
 seen by the spacecraft

---
 src/environment/local/atmosphere.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/environment/local/atmosphere.cpp b/src/environment/local/atmosphere.cpp
index 95de35e..22e36d4 100644
--- a/src/environment/local/atmosphere.cpp
+++ b/src/environment/local/atmosphere.cpp
@@ -78,7 +78,7 @@ double Atmosphere::CalcAirDensity_kg_m3(const double decimal_year, const dynamic
     return air_density_kg_m3_ = 0.0;
   }
 
-  return AddNoise(air_density_kg_m3_);
+  return air_density_kg_m3_ = AddNoise(air_density_kg_m3_);
 }
 
 double Atmosphere::AddNoise(const double rho_kg_m3) {
-- 
2.43.0


From cb3a7d0e2267fb22bfae9c22ece7792a0837503d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:41 +0000
Subject: [PATCH 133/138] fix: keep the step width of embedded Runge-Kutta
 methods when there is no truncation error

---
 .../numerical_integration/embedded_runge_kutta.hpp            | 2 +-
 .../embedded_runge_kutta_implementation.hpp                   | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/numerical_integration/embedded_runge_kutta.hpp b/src/math_physics/numerical_integration/embedded_runge_kutta.hpp
index c453fc6..d0556cb 100644
--- a/src/math_physics/numerical_integration/embedded_runge_kutta.hpp
+++ b/src/math_physics/numerical_integration/embedded_runge_kutta.hpp
@@ -48,7 +48,7 @@ class EmbeddedRungeKutta : public RungeKutta<N> {
   std::vector<double> higher_order_weights_;  //!< Weights vector for higher order approximation
 
   // Error
-  double local_truncation_error_;  //!< Norm of estimated local truncation error
+  double local_truncation_error_ = 0.0;  //!< Norm of estimated local truncation error
 };
 
 }  // namespace s2e::numerical_integration
diff --git a/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp b/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp
index f4e794a..ce0ce0e 100644
--- a/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp
+++ b/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp
@@ -5,6 +5,8 @@
 #ifndef S2E_LIBRARY_NUMERICAL_INTEGRATION_EMBEDDED_RUNGE_KUTTA_IMPLEMENTATION_HPP_
 #define S2E_LIBRARY_NUMERICAL_INTEGRATION_EMBEDDED_RUNGE_KUTTA_IMPLEMENTATION_HPP_
 
+#include <cmath>
+
 #include "embedded_runge_kutta.hpp"
 
 namespace s2e::numerical_integration {
@@ -33,7 +35,7 @@ void EmbeddedRungeKutta<N>::Integrate() {
 template <size_t N>
 void EmbeddedRungeKutta<N>::ControlStepWidth(const double error_tolerance) {
   double updated_step_width = pow(error_tolerance / local_truncation_error_, 1.0 / ((double)(this->approximation_order_ + 1))) * this->step_width_;
-  if (updated_step_width <= 0.0) return;  // TODO: Error handling
+  if (!(updated_step_width > 0.0) || !std::isfinite(updated_step_width)) return;  // TODO: Error handling
   this->step_width_ = updated_step_width;
 }
 
-- 
2.43.0


From aa15958424b574142e75944b07674965af0da223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:55 +0000
Subject: [PATCH 134/138] fix: interpolate in the latest integration step after
 the step width is changed

---
 .../dormand_prince_5_implementation.hpp                     | 2 +-
 .../embedded_runge_kutta_implementation.hpp                 | 1 +
 .../numerical_integration/numerical_integrator.hpp          | 5 +++--
 .../runge_kutta_fehlberg_implementation.hpp                 | 6 +++---
 .../numerical_integration/runge_kutta_template.hpp          | 1 +
 5 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/math_physics/numerical_integration/dormand_prince_5_implementation.hpp b/src/math_physics/numerical_integration/dormand_prince_5_implementation.hpp
index 8a5bbb5..3f3ecd4 100644
--- a/src/math_physics/numerical_integration/dormand_prince_5_implementation.hpp
+++ b/src/math_physics/numerical_integration/dormand_prince_5_implementation.hpp
@@ -128,7 +128,7 @@ math::Vector<N> DormandPrince5<N>::CalcInterpolationState(const double sigma) co
 
   math::Vector<N> interpolation_state = this->previous_state_;
   for (size_t i = 0; i < this->number_of_stages_; i++) {
-    interpolation_state = interpolation_state + (sigma * this->step_width_ * interpolation_weights[i]) * this->slope_[i];
+    interpolation_state = interpolation_state + (sigma * this->integrated_step_width_ * interpolation_weights[i]) * this->slope_[i];
   }
 
   return interpolation_state;
diff --git a/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp b/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp
index ce0ce0e..656ef24 100644
--- a/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp
+++ b/src/math_physics/numerical_integration/embedded_runge_kutta_implementation.hpp
@@ -16,6 +16,7 @@ void EmbeddedRungeKutta<N>::Integrate() {
   this->CalcSlope();
 
   this->previous_state_ = this->current_state_;
+  this->integrated_step_width_ = this->step_width_;
   math::Vector<N> lower_current_state = this->current_state_;   //!< eta in the equation
   math::Vector<N> higher_current_state = this->current_state_;  //!< eta_hat in the equation
   for (size_t i = 0; i < this->number_of_stages_; i++) {
diff --git a/src/math_physics/numerical_integration/numerical_integrator.hpp b/src/math_physics/numerical_integration/numerical_integrator.hpp
index 5ac80be..439ac83 100644
--- a/src/math_physics/numerical_integration/numerical_integrator.hpp
+++ b/src/math_physics/numerical_integration/numerical_integrator.hpp
@@ -27,7 +27,7 @@ class NumericalIntegrator {
    * @param [in] ode: Ordinary differential equation
    */
   inline NumericalIntegrator(const double step_width, const InterfaceOde<N>& ode)
-      : step_width_(step_width), ode_(ode), current_independent_variable_(0.0), current_state_(0.0), previous_state_(0.0) {}
+      : step_width_(step_width), integrated_step_width_(step_width), ode_(ode), current_independent_variable_(0.0), current_state_(0.0), previous_state_(0.0) {}
   /**
    * @fn ~NumericalIntegrator
    * @brief Destructor
@@ -72,7 +72,8 @@ class NumericalIntegrator {
 
  protected:
   // Settings
-  double step_width_;  //!< Step width. The unit is depending on the independent variable
+  double step_width_;             //!< Step width. The unit is depending on the independent variable
+  double integrated_step_width_;  //!< Step width of the latest integration, which the interpolation refers to
 
   // States
   const InterfaceOde<N>& ode_;           //!< Ordinary differential equation
diff --git a/src/math_physics/numerical_integration/runge_kutta_fehlberg_implementation.hpp b/src/math_physics/numerical_integration/runge_kutta_fehlberg_implementation.hpp
index c988703..b986818 100644
--- a/src/math_physics/numerical_integration/runge_kutta_fehlberg_implementation.hpp
+++ b/src/math_physics/numerical_integration/runge_kutta_fehlberg_implementation.hpp
@@ -67,16 +67,16 @@ template <size_t N>
 math::Vector<N> RungeKuttaFehlberg<N>::CalcInterpolationState(const double sigma) const {
   // Calc k7 (slope after state update)
   math::Vector<N> state_7 =
-      this->previous_state_ + this->step_width_ * (1.0 / 6.0 * this->slope_[0] + 1.0 / 6.0 * this->slope_[4] + 2.0 / 3.0 * this->slope_[5]);
+      this->previous_state_ + this->integrated_step_width_ * (1.0 / 6.0 * this->slope_[0] + 1.0 / 6.0 * this->slope_[4] + 2.0 / 3.0 * this->slope_[5]);
   math::Vector<N> k7 = this->ode_.DerivativeFunction(this->current_independent_variable_, state_7);
 
   std::vector<double> interpolation_weights = CalcInterpolationWeights(sigma);
 
   math::Vector<N> interpolation_state = this->previous_state_;
   for (size_t i = 0; i < this->number_of_stages_; i++) {
-    interpolation_state = interpolation_state + (sigma * this->step_width_ * interpolation_weights[i]) * this->slope_[i];
+    interpolation_state = interpolation_state + (sigma * this->integrated_step_width_ * interpolation_weights[i]) * this->slope_[i];
   }
-  interpolation_state = interpolation_state + sigma * this->step_width_ * (interpolation_weights[6] * k7);
+  interpolation_state = interpolation_state + sigma * this->integrated_step_width_ * (interpolation_weights[6] * k7);
   return interpolation_state;
 }
 
diff --git a/src/math_physics/numerical_integration/runge_kutta_template.hpp b/src/math_physics/numerical_integration/runge_kutta_template.hpp
index 0a34a74..52de7c9 100644
--- a/src/math_physics/numerical_integration/runge_kutta_template.hpp
+++ b/src/math_physics/numerical_integration/runge_kutta_template.hpp
@@ -14,6 +14,7 @@ void RungeKutta<N>::Integrate() {
   CalcSlope();
 
   this->previous_state_ = this->current_state_;
+  this->integrated_step_width_ = this->step_width_;
   for (size_t i = 0; i < number_of_stages_; i++) {
     this->current_state_ = this->current_state_ + weights_[i] * this->step_width_ * slope_[i];
   }
-- 
2.43.0


From bb422e83759340e6b3d9a102462e3ea37119178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:19 +0000
Subject: [PATCH 135/138] fix: solve the Kepler equation of highly eccentric
 orbits

---
 src/math_physics/orbit/kepler_orbit.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math_physics/orbit/kepler_orbit.cpp b/src/math_physics/orbit/kepler_orbit.cpp
index 929472a..2a3c25e 100644
--- a/src/math_physics/orbit/kepler_orbit.cpp
+++ b/src/math_physics/orbit/kepler_orbit.cpp
@@ -4,6 +4,7 @@
  */
 #include "kepler_orbit.hpp"
 
+#include "../math/constants.hpp"
 #include "../math/matrix_vector.hpp"
 #include "../math/s2e_math.hpp"
 
@@ -86,8 +87,9 @@ double KeplerOrbit::SolveKeplerFirstOrder(const double eccentricity, const doubl
 
 double KeplerOrbit::SolveKeplerNewtonMethod(const double eccentricity, const double mean_anomaly_rad, const double angle_limit_rad,
                                             const int iteration_limit) {
-  double u_prev_rad = mean_anomaly_rad;
-  double u_rad = mean_anomaly_rad;
+  // The Newton method started from the mean anomaly may diverge when the eccentricity is high
+  double u_prev_rad = (eccentricity < 0.8) ? mean_anomaly_rad : math::pi;
+  double u_rad = u_prev_rad;
 
   for (int i = 0; i < iteration_limit; i++) {
     u_rad -= (u_prev_rad - eccentricity * sin(u_prev_rad) - mean_anomaly_rad) / (1.0 - eccentricity * cos(u_prev_rad));
-- 
2.43.0


From cbce5f521fd66cf41e3cd7d17f7a48188f0b1af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:33 +0000
Subject: [PATCH 136/138] fix: find the nearest epoch of product files with
 missing epochs

---
 src/math_physics/gnss/sp3_file_reader.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index 353e905..d25903a 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -9,6 +9,7 @@
 #include "sp3_file_reader.hpp"
 
 #include <algorithm>
+#include <cmath>
 #include <fstream>
 #include <iostream>
 
@@ -140,7 +141,6 @@ size_t Sp3FileReader::SearchNearestEpochId(const time_system::EpochTime time) {
 
   // Get header info
   const size_t num_epoch = header_.number_of_epoch_;
-  const double interval_s = header_.epoch_interval_s_;
 
   // Check range
   time_system::EpochTime start_epoch(epoch_[0]);
@@ -149,8 +149,15 @@ size_t Sp3FileReader::SearchNearestEpochId(const time_system::EpochTime time) {
   } else if ((time_system::EpochTime)(epoch_[num_epoch - 1]) < time) {
     nearest_epoch_id = num_epoch - 1;
   } else {  // Calc nearest point
-    double diff_s = time.GetTimeWithFraction_s() - start_epoch.GetTimeWithFraction_s();
-    nearest_epoch_id = (size_t)(diff_s / interval_s + 0.5);
+    // The epoch is searched since epochs can be missing in the file
+    double nearest_diff_s = std::fabs(time.GetTimeWithFraction_s() - start_epoch.GetTimeWithFraction_s());
+    for (size_t epoch_id = 1; epoch_id < num_epoch; epoch_id++) {
+      double diff_s = std::fabs(time.GetTimeWithFraction_s() - time_system::EpochTime(epoch_[epoch_id]).GetTimeWithFraction_s());
+      if (diff_s <= nearest_diff_s) {
+        nearest_diff_s = diff_s;
+        nearest_epoch_id = epoch_id;
+      }
+    }
   }
 
   return nearest_epoch_id;
-- 
2.43.0


From c65ed0fea5fb4648e70bec87369749a66e252ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:58 +0000
Subject: [PATCH 137/138] fix: search the nearest epoch of an empty product
 file

---
 src/math_physics/gnss/sp3_file_reader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/math_physics/gnss/sp3_file_reader.cpp b/src/math_physics/gnss/sp3_file_reader.cpp
index d25903a..a1018eb 100644
--- a/src/math_physics/gnss/sp3_file_reader.cpp
+++ b/src/math_physics/gnss/sp3_file_reader.cpp
@@ -141,6 +141,7 @@ size_t Sp3FileReader::SearchNearestEpochId(const time_system::EpochTime time) {
 
   // Get header info
   const size_t num_epoch = header_.number_of_epoch_;
+  if (num_epoch == 0) return nearest_epoch_id;
 
   // Check range
   time_system::EpochTime start_epoch(epoch_[0]);
-- 
2.43.0


From b54f601a77607de40c5242b16d9fbef000a11f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:36:49 +0000
Subject: [PATCH 138/138] fix: initialize an orbit from the given settings
 section

---
 src/dynamics/orbit/initialize_orbit.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dynamics/orbit/initialize_orbit.cpp b/src/dynamics/orbit/initialize_orbit.cpp
index e039adb..32c7f08 100644
--- a/src/dynamics/orbit/initialize_orbit.cpp
+++ b/src/dynamics/orbit/initialize_orbit.cpp
@@ -31,7 +31,7 @@ Orbit* InitOrbit(const environment::CelestialInformation* celestial_information,
     // initialize RK4 orbit propagator
     math::Vector<3> position_i_m;
     math::Vector<3> velocity_i_m_s;
-    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2);
+    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2, section);
     for (size_t i = 0; i < 3; i++) {
       position_i_m[i] = pos_vel[i];
       velocity_i_m_s[i] = pos_vel[i + 3];
@@ -91,7 +91,7 @@ Orbit* InitOrbit(const environment::CelestialInformation* celestial_information,
     // initialize orbit for Encke's method
     math::Vector<3> position_i_m;
     math::Vector<3> velocity_i_m_s;
-    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2);
+    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2, section);
     for (size_t i = 0; i < 3; i++) {
       position_i_m[i] = pos_vel[i];
       velocity_i_m_s[i] = pos_vel[i + 3];
@@ -116,7 +116,7 @@ Orbit* InitOrbit(const environment::CelestialInformation* celestial_information,
 
     math::Vector<3> position_i_m;
     math::Vector<3> velocity_i_m_s;
-    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2);
+    math::Vector<6> pos_vel = InitializePosVel(initialize_file, current_time_jd, gravity_constant_m3_s2, section);
     for (size_t i = 0; i < 3; i++) {
       position_i_m[i] = pos_vel[i];
       velocity_i_m_s[i] = pos_vel[i + 3];
-- 
2.43.0

