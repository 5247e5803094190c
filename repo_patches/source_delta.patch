From e21543a724ed09091cd0345e62885870065acf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 01/19] fix: inter-RAD bandwidth fraction uses the power of ten
 as its denominator

---
 rad-sim/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index f2395b5..761aa98 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -322,7 +322,7 @@ def get_fraction(input_val):
         while (remainder % 1 != 0):
             remainder *= 10
             count += 1
-        b = count * 10
+        b = 10 ** count
         a = (( input_val-(input_val%1) ) * b) + remainder
         return (int(a), b)
 
-- 
2.43.0


From be9ec3b464567c8de5aec545cb9706295fa6c4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 02/19] fix: maximum-size matching resets the predecessor of
 every output

---
 rad-sim/sim/noc/booksim/allocators/maxsize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/noc/booksim/allocators/maxsize.cpp b/rad-sim/sim/noc/booksim/allocators/maxsize.cpp
index ffa11b4..5b9ec0f 100644
--- a/rad-sim/sim/noc/booksim/allocators/maxsize.cpp
+++ b/rad-sim/sim/noc/booksim/allocators/maxsize.cpp
@@ -112,7 +112,7 @@ bool MaxSizeMatch::_ShortestAugmenting( )
     }
   }
 
-  _from.assign(_inputs, -1);
+  _from.assign(_outputs, -1);
 
   for ( int iter = 0; iter < _inputs; iter++ ) {
     nslen = 0;
-- 
2.43.0


From 4e7419c48fb1cc4f5e481932723f78d7d2979bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 03/19] fix: minimal adaptive mesh routing offers the escape VC
 of the flit's own class

---
 rad-sim/sim/noc/booksim/routefunc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/noc/booksim/routefunc.cpp b/rad-sim/sim/noc/booksim/routefunc.cpp
index 30f8d47..8210196 100644
--- a/rad-sim/sim/noc/booksim/routefunc.cpp
+++ b/rad-sim/sim/noc/booksim/routefunc.cpp
@@ -1009,7 +1009,7 @@ void min_adapt_mesh( const Router *r, const Flit *f, int in_channel, OutputSet *
   
   // DOR for the escape channel (VC 0), low priority 
   int out_port = dor_next_mesh( r->GetID( ), f->dest );    
-  outputs->AddRange( out_port, 0, vcBegin, vcBegin );
+  outputs->AddRange( out_port, vcBegin, vcBegin, 0 );
   
   if ( f->watch ) {
       *gWatchOut << GetSimTime() << " | " << r->FullName() << " | "
-- 
2.43.0


From dedfea25cc3d4aaa47cd11d2d99df5a4691ee2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 04/19] fix: weight loader FIFO names fit in their buffer

---
 rad-sim/example-designs/mlp_int8/modules/weight_loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/example-designs/mlp_int8/modules/weight_loader.cpp b/rad-sim/example-designs/mlp_int8/modules/weight_loader.cpp
index fa0fa15..95d0e16 100644
--- a/rad-sim/example-designs/mlp_int8/modules/weight_loader.cpp
+++ b/rad-sim/example-designs/mlp_int8/modules/weight_loader.cpp
@@ -22,7 +22,7 @@ weight_loader::weight_loader(const sc_module_name &name, RADSimDesignContext* ra
   this->radsim_design = radsim_design;
   module_name = name;
 
-  char fifo_name[25];
+  char fifo_name[32];
   std::string fifo_name_str;
 
   fifo_name_str = "weight_loader_weight_fifo";
-- 
2.43.0


From c31fa30b17e2c6f825be079988b0f9b966144964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:26 +0000
Subject: [PATCH 05/19] fix: AXI-MM master adapter takes burst, size and length
 from the control field

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 200ef3a..73def7a 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -278,13 +278,13 @@ void aximm_master_adapter::OutputInterface() {
       sc_bv<AXI4_CTRLW> ctrl_temp = AXI4_CTRL(temp_bv);
       unsigned int offset = 0;
       aximm_interface.arburst.write(
-          temp_bv.range(offset + AXI4_BURSTW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_BURSTW - 1, offset).to_uint());
       offset += AXI4_BURSTW;
       aximm_interface.arsize.write(
-          temp_bv.range(offset + AXI4_SIZEW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_SIZEW - 1, offset).to_uint());
       offset += AXI4_SIZEW;
       aximm_interface.arlen.write(
-          temp_bv.range(offset + AXI4_LENW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
       NoCTransactionTelemetry::RecordTransactionReceipt(
           temp_flit->_sim_transaction_id);
@@ -315,13 +315,13 @@ void aximm_master_adapter::OutputInterface() {
       sc_bv<AXI4_CTRLW> ctrl_temp = AXI4_CTRL(temp_bv);
       unsigned int offset = 0;
       aximm_interface.awburst.write(
-          temp_bv.range(offset + AXI4_BURSTW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_BURSTW - 1, offset).to_uint());
       offset += AXI4_BURSTW;
       aximm_interface.awsize.write(
-          temp_bv.range(offset + AXI4_SIZEW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_SIZEW - 1, offset).to_uint());
       offset += AXI4_SIZEW;
       aximm_interface.awlen.write(
-          temp_bv.range(offset + AXI4_LENW - 1, offset).to_uint());
+          ctrl_temp.range(offset + AXI4_LENW - 1, offset).to_uint());
       _output_packet_ready = false;
       NoCTransactionTelemetry::RecordTransactionReceipt(
           temp_flit->_sim_transaction_id);
-- 
2.43.0


From 1987c60551f4ec7769cf83042efd4b7227a2dce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 06/19] fix: inter-RAD bandwidth fraction is not disturbed by
 binary rounding

---
 rad-sim/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 761aa98..77f6b85 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -320,7 +320,7 @@ def get_fraction(input_val):
     else:
         count = 0
         while (remainder % 1 != 0):
-            remainder *= 10
+            remainder = round(remainder * 10, 3)
             count += 1
         b = 10 ** count
         a = (( input_val-(input_val%1) ) * b) + remainder
-- 
2.43.0


From 6f2298305b1ffa7cc92c54a5ba7714324e4a54fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 07/19] fix: AXI-MM adapters reserve injection space for a
 whole transaction

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 2 +-
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 73def7a..579cc66 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -54,7 +54,7 @@ aximm_master_adapter::aximm_master_adapter(
     _axi_transaction_width += (_interface_dataw + AXI4_RESPW + 1);
   }
   _max_flits_per_transaction =
-      (int)ceil(_axi_transaction_width / NOC_LINKS_PAYLOAD_WIDTH);
+      (int)ceil(_axi_transaction_width * 1.0 / NOC_LINKS_PAYLOAD_WIDTH);
   _freq_ratio = (int)floor(_node_period / _adapter_period);
   _rready = false;
   _bready = false;
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 03738c8..980b0a4 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -38,7 +38,7 @@ aximm_slave_adapter::aximm_slave_adapter(
     _axi_transaction_width += (_interface_dataw + AXI4_RESPW + 1);
   }
   _max_flits_per_transaction =
-      (int)ceil(_axi_transaction_width / NOC_LINKS_PAYLOAD_WIDTH);
+      (int)ceil(_axi_transaction_width * 1.0 / NOC_LINKS_PAYLOAD_WIDTH);
   _freq_ratio = (int)floor(_node_period / _adapter_period);
   _arready = false;
   _awready = false;
-- 
2.43.0


From 6a8cedcfeb14e4902e95d366a0dd68f002bbaa06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 08/19] fix: AXI-MM address and response packets have flits for
 their whole layout

---
 rad-sim/sim/noc/aximm_master_adapter.cpp | 6 +++---
 rad-sim/sim/noc/aximm_slave_adapter.cpp  | 7 ++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/rad-sim/sim/noc/aximm_master_adapter.cpp b/rad-sim/sim/noc/aximm_master_adapter.cpp
index 579cc66..9e617f0 100644
--- a/rad-sim/sim/noc/aximm_master_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_master_adapter.cpp
@@ -48,8 +48,8 @@ aximm_master_adapter::aximm_master_adapter(
   _injection_afifo_depth =
       radsim_config.GetIntVectorKnobPerRad("noc_adapters_fifo_size", _network_id, _rad_id);
   _axi_transaction_width = AXI4_USERW;
-  if ((AXI4_ADDRW + AXI4_CTRLW) > (_interface_dataw + AXI4_RESPW + 1)) {
-    _axi_transaction_width += (AXI4_ADDRW + AXI4_CTRLW);
+  if ((AXI4_ADDRW + AXI4_CTRLW) > _interface_dataw) {
+    _axi_transaction_width += (AXI4_ADDRW + AXI4_CTRLW + AXI4_RESPW + 1);
   } else {
     _axi_transaction_width += (_interface_dataw + AXI4_RESPW + 1);
   }
@@ -491,7 +491,7 @@ void aximm_master_adapter::InputPacketization() {
         unsigned int num_flits = 0;
         if (_i_type.read() == AXI_TYPE_B) {
 
-          num_flits = (unsigned int)(ceil((AXI4_RESPW + AXI4_USERW) * 1.0 /
+          num_flits = (unsigned int)(ceil((AXI4_RESPW + AXI4_USERW + 1) * 1.0 /
                                           NOC_LINKS_PAYLOAD_WIDTH));
           AXI4_USER(packet_bv) = _i_user.read();
           AXI4_RESP(packet_bv) = _i_resp.read();
diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 980b0a4..5dc1121 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -32,8 +32,8 @@ aximm_slave_adapter::aximm_slave_adapter(
       radsim_config.GetIntVectorKnobPerRad("noc_adapters_fifo_size", _network_id, _rad_id);
 
   _axi_transaction_width = AXI4_USERW;
-  if ((AXI4_ADDRW + AXI4_CTRLW) > (_interface_dataw + AXI4_RESPW + 1)) {
-    _axi_transaction_width += (AXI4_ADDRW + AXI4_CTRLW);
+  if ((AXI4_ADDRW + AXI4_CTRLW) > _interface_dataw) {
+    _axi_transaction_width += (AXI4_ADDRW + AXI4_CTRLW + AXI4_RESPW + 1);
   } else {
     _axi_transaction_width += (_interface_dataw + AXI4_RESPW + 1);
   }
@@ -293,7 +293,8 @@ void aximm_slave_adapter::InputPacketization() {
             (_i_type.read() == AXI_TYPE_AW)) {
 
           num_flits =
-              (unsigned int)(ceil((AXI4_ADDRW + AXI4_CTRLW + AXI4_USERW) * 1.0 /
+              (unsigned int)(ceil((AXI4_ADDRW + AXI4_CTRLW + AXI4_RESPW +
+                                   AXI4_USERW + 1) * 1.0 /
                                   NOC_LINKS_PAYLOAD_WIDTH));
           AXI4_USER(packet_bv) = _i_user.read();
           AXI4_CTRL(packet_bv) = _i_ctrl.read();
-- 
2.43.0


From 5100496568e9082e908e9ecd1c4199a92f3a9e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 09/19] fix: a refreshed bank waits tRFCb before its next
 command

---
 rad-sim/sim/dram/DRAMsim3/src/timing.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/timing.cc b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
index 735ba85..6c31b2e 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/timing.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/timing.cc
@@ -222,7 +222,7 @@ Timing::Timing(const Config& config)
     }
 
     // command REFRESH_BANK
-    same_rank[static_cast<int>(CommandType::REFRESH_BANK)] =
+    same_bank[static_cast<int>(CommandType::REFRESH_BANK)] =
         std::vector<std::pair<CommandType, int> >{
             {CommandType::ACTIVATE, refresh_to_activate_bank},
             {CommandType::REFRESH, refresh_to_activate_bank},
-- 
2.43.0


From 01718c80a9d2fcb7884ae879188c4d587f9b3f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 10/19] fix: simultaneous refresh policy refreshes every rank

---
 rad-sim/sim/dram/DRAMsim3/src/refresh.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
index 31cbc9f..4b9fa4b 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/refresh.cc
@@ -33,7 +33,6 @@ void Refresh::InsertRefresh() {
             for (auto i = 0; i < config_.ranks; i++) {
                 if (!channel_state_.IsRankSelfRefreshing(i)) {
                     channel_state_.RankNeedRefresh(i, true);
-                    break;
                 }
             }
             break;
-- 
2.43.0


From 9f835540358b8bccbbb9260f5225f58e471e62cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 11/19] fix: ideal memory completes every transaction at its
 latency

---
 rad-sim/sim/dram/DRAMsim3/src/dram_system.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rad-sim/sim/dram/DRAMsim3/src/dram_system.cc b/rad-sim/sim/dram/DRAMsim3/src/dram_system.cc
index a23b43a..792cb19 100644
--- a/rad-sim/sim/dram/DRAMsim3/src/dram_system.cc
+++ b/rad-sim/sim/dram/DRAMsim3/src/dram_system.cc
@@ -190,9 +190,8 @@ void IdealDRAMSystem::ClockTick() {
       } else {
         read_callback_(trans_it->addr);
       }
-      trans_it = infinite_buffer_q_.erase(trans_it++);
-    }
-    if (trans_it != infinite_buffer_q_.end()) {
+      trans_it = infinite_buffer_q_.erase(trans_it);
+    } else {
       ++trans_it;
     }
   }
-- 
2.43.0


From 4e54ac7d0daa8c279e2d20794c1a8fd8be2db612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:34 +0000
Subject: [PATCH 12/19] fix: read callback does not look at the front of an
 empty request queue

---
 rad-sim/sim/dram/mem_controller.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rad-sim/sim/dram/mem_controller.cpp b/rad-sim/sim/dram/mem_controller.cpp
index efe1f4b..eb17542 100644
--- a/rad-sim/sim/dram/mem_controller.cpp
+++ b/rad-sim/sim/dram/mem_controller.cpp
@@ -198,6 +198,8 @@ void mem_controller::MemReadCallback(uint64_t addr) {
 
     do {
       flag = false;
+      if (_outstanding_read_requests[ch_id].empty())
+        break;
       uint64_t front_addr =
           std::get<0>(_outstanding_read_requests[ch_id].front());
       if (_out_of_order_read_requests[ch_id].find(front_addr) !=
-- 
2.43.0


From bb0e10ee94f946916afd2138d0debe34c54fefe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:58 +0000
Subject: [PATCH 13/19] fix: every RAD is generated from the configuration the
 cluster assigns to it

---
 rad-sim/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index 77f6b85..cca4077 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -332,7 +332,7 @@ def generate_radsim_config_file(radsim_knobs, cluster_knobs):
     for config_id in range(len(cluster_knobs["cluster_configs"])):
         curr_config_name = cluster_knobs["cluster_configs"][config_id] #retrieve the config num by rad ID
         curr_config_num = config_names.index(curr_config_name)
-        for param in radsim_knobs[config_id]:
+        for param in radsim_knobs[curr_config_num]:
             radsim_config_file.write(param + " " + str(config_id) + " ") # second element is RAD ID
             if isinstance(radsim_knobs[curr_config_num][param], list):
                 for value in radsim_knobs[curr_config_num][param]:
@@ -397,7 +397,7 @@ def generate_radsim_main(design_names, radsim_knobs):
     main_cpp_file.write("\tint num_traces = radsim_config.GetIntKnobShared(\"telemetry_num_traces\");\n")
     main_cpp_file.write("\tsim_trace_probe.SetTraceRecordingSettings(\"sim.trace\", num_traces);\n\n")
     for i in range(cluster_knobs["num_rads"]):
-        design_name = radsim_knobs[i]["design_name"]
+        design_name = radsim_knobs[config_names.index(cluster_knobs["cluster_configs"][i])]["design_name"]
         main_cpp_file.write("\tsc_clock *driver_clk_sig" + str(i) + " = new sc_clock(\n")
         main_cpp_file.write("\t\t\"node_clk0\", radsim_config.GetDoubleKnobShared(\"sim_driver_period\"), SC_NS);\n")
         main_cpp_file.write("\t" + design_name + "_system *system" + str(i) + " = new " + design_name + "_system(\"" 
-- 
2.43.0


From fa4dd601d965c731825946b558a9738890387052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 14/19] fix: NoC files are named after the RAD that reads them

---
 rad-sim/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index cca4077..d8418d9 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -98,7 +98,7 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
         curr_config_num = config_names.index(curr_config_name)
         print('generate_booksim_config_files fn ' + curr_config_name + ' ' + str(curr_config_num))
         for noc_idx in range(booksim_params[curr_config_num]["noc_num_nocs"]):
-            booksim_config_file = open(booksim_params[curr_config_num]["radsim_root_dir"] + "/sim/noc/noc" + str(noc_idx) + "_rad" + str(curr_config_num) + "_config", "w")
+            booksim_config_file = open(booksim_params[curr_config_num]["radsim_root_dir"] + "/sim/noc/noc" + str(noc_idx) + "_rad" + str(config_idx) + "_config", "w")
 
             # Booksim topology configuration
             booksim_config_file.write("// Topology\n")
-- 
2.43.0


From 3317d688ddde7dc8fe004b522ecdd0030a9ac40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 15/19] fix: anynet NoCs can be configured

---
 rad-sim/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rad-sim/config.py b/rad-sim/config.py
index d8418d9..58653d5 100644
--- a/rad-sim/config.py
+++ b/rad-sim/config.py
@@ -146,7 +146,7 @@ def generate_booksim_config_files(booksim_params, radsim_header_params, radsim_k
             elif noc_topology == "anynet":
                 booksim_config_file.write("topology = anynet;\n")
                 booksim_config_file.write("network_file = " + booksim_params[curr_config_num]["noc_anynet_file"][noc_idx] + ";\n")
-                if radsim_header_params[curr_config_num]["noc_num_nodes"][noc_idx] == 0:
+                if radsim_header_params["noc_num_nodes"][noc_idx] == 0:
                     print("Config Error: Number of nodes parameter missing for anynet NoC topologies!")
                     exit(1)
 
-- 
2.43.0


From de95035033404920f672105a6199424f2fd6b71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:24 +0000
Subject: [PATCH 16/19] fix: a recycled flit keeps no subnetwork or lookahead
 route from its earlier life

---
 rad-sim/sim/noc/booksim/flit.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rad-sim/sim/noc/booksim/flit.cpp b/rad-sim/sim/noc/booksim/flit.cpp
index 34d2e6f..1f64370 100644
--- a/rad-sim/sim/noc/booksim/flit.cpp
+++ b/rad-sim/sim/noc/booksim/flit.cpp
@@ -83,6 +83,8 @@ void Flit::Reset()
   pri = 0;
   intm =-1;
   ph = -1;
+  subnetwork = 0;
+  la_route_set.Clear();
   data = 0;
 }  
 
-- 
2.43.0


From 906f2de397c54dd73f806daf8d4c65e4e7e92451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 17/19] fix: write data is accepted as soon as its address has
 been

---
 rad-sim/sim/noc/aximm_slave_adapter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rad-sim/sim/noc/aximm_slave_adapter.cpp b/rad-sim/sim/noc/aximm_slave_adapter.cpp
index 5dc1121..0da58cc 100644
--- a/rad-sim/sim/noc/aximm_slave_adapter.cpp
+++ b/rad-sim/sim/noc/aximm_slave_adapter.cpp
@@ -51,7 +51,8 @@ aximm_slave_adapter::aximm_slave_adapter(
   SC_METHOD(InputReady);
   sensitive << _injection_afifo_full << aximm_interface.arvalid
             << aximm_interface.awvalid << aximm_interface.wvalid
-            << _injection_priority_setting << _packetization_cycle << rst;
+            << _injection_priority_setting << _packetization_cycle << _got_aw
+            << rst;
   SC_CTHREAD(InputInjection, noc_clk.pos());
   reset_signal_is(rst, true);
   SC_CTHREAD(InputPacketization, adapter_clk.pos());
-- 
2.43.0


From 6eed3ee8e48c166c33bed1a01e6cb81a0772d446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 18/19] fix: mvm output follows its output FIFO's empty flag

---
 rad-sim/example-designs/mlp/modules/mvm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rad-sim/example-designs/mlp/modules/mvm.cpp b/rad-sim/example-designs/mlp/modules/mvm.cpp
index c412915..3565ec2 100644
--- a/rad-sim/example-designs/mlp/modules/mvm.cpp
+++ b/rad-sim/example-designs/mlp/modules/mvm.cpp
@@ -182,7 +182,8 @@ mvm::mvm(const sc_module_name &name, unsigned int id_mvm, unsigned int id_layer,
             << dl_fifo_rdata_signal << dm_fifo_rdata_signal
             << dest_layer_pipeline[RF_RD_LATENCY + COMPUTE_LATENCY - 1]
             << dest_mvm_pipeline[RF_RD_LATENCY + COMPUTE_LATENCY - 1]
-            << dl_fifo_rdata_signal << dm_fifo_rdata_signal;
+            << dl_fifo_rdata_signal << dm_fifo_rdata_signal
+            << ofifo_empty_signal;
   SC_CTHREAD(Tick, clk.pos());
   reset_signal_is(rst, true);
 
-- 
2.43.0


From 4573c5eea661028d87d499e3d871ecfc4d810380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 19/19] fix: npu decoders react to reset

---
 rad-sim/example-designs/npu/modules/decoders.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rad-sim/example-designs/npu/modules/decoders.cpp b/rad-sim/example-designs/npu/modules/decoders.cpp
index 4530cd6..1c43e61 100644
--- a/rad-sim/example-designs/npu/modules/decoders.cpp
+++ b/rad-sim/example-designs/npu/modules/decoders.cpp
@@ -296,7 +296,7 @@ sector_and_accum_decoder::sector_and_accum_decoder(const sc_module_name& name) :
   SC_CTHREAD(Tick, clk.pos());
   reset_signal_is(rst, true);
   SC_METHOD(Assign);
-  sensitive << mop_rdy << mop_fifo_almost_full;
+  sensitive << rst << mop_rdy << mop_fifo_almost_full;
 }
 
 sector_and_accum_decoder::~sector_and_accum_decoder() {}
@@ -520,7 +520,7 @@ evrf_decoder::evrf_decoder(const sc_module_name& name) : sc_module(name) {
   SC_CTHREAD(Tick, clk.pos());
   reset_signal_is(rst, true);
   SC_METHOD(Assign);
-  sensitive << mop_rdy << mop_fifo_almost_full;
+  sensitive << rst << mop_rdy << mop_fifo_almost_full;
 }
 
 evrf_decoder::~evrf_decoder() {}
@@ -650,7 +650,7 @@ mfu_decoder::mfu_decoder(const sc_module_name& name) : sc_module(name) {
   SC_CTHREAD(Tick, clk.pos());
   reset_signal_is(rst, true);
   SC_METHOD(Assign);
-  sensitive << mop_rdy << mop_fifo_almost_full;
+  sensitive << rst << mop_rdy << mop_fifo_almost_full;
 }
 
 mfu_decoder::~mfu_decoder() {}
-- 
2.43.0

