NOC = "rad-sim/sim/noc/"
SIM = "rad-sim/sim/"
MM = NOC + "aximm_master_adapter.cpp"
GATHER = """      for (unsigned int i = 0; i < _output_packet.GetNumValidFlits(); i++) {
        unsigned int start_idx = i * NOC_LINKS_PAYLOAD_WIDTH;
        unsigned int end_idx =
            min((int)AXI4_PAYLOADW, (int)(i + 1) * NOC_LINKS_PAYLOAD_WIDTH);
        sc_bv<NOC_LINKS_PAYLOAD_WIDTH> flit_payload =
            *(_output_packet.GetFlit(i)->_payload);
        temp_bv.range(end_idx - 1, start_idx) = flit_payload;
      }
"""
ALL = "*"      # replaces every occurrence
EDITS = [
 ("mm_gather_helper", "noc", MM, [(GATHER, "      GatherPayload(_output_packet, temp_bv);\n", ALL),
  ("void aximm_master_adapter::OutputInterface() {", """static void GatherPayload(sc_packet &packet, sc_bv<AXI4_PAYLOADW> &bv) {
  const unsigned int n = packet.GetNumValidFlits();
  for (unsigned int flit = 0; flit < n; flit++) {
    unsigned int lo = flit * NOC_LINKS_PAYLOAD_WIDTH;
    unsigned int hi = min((int)AXI4_PAYLOADW, (int)(flit + 1) * NOC_LINKS_PAYLOAD_WIDTH);
    bv.range(hi - 1, lo) = *(packet.GetFlit(flit)->_payload);
  }
}

void aximm_master_adapter::OutputInterface() {""")]),
 ("mm_eject_guard", "noc", MM, [("""    if (_ejected_booksim_flit) {
      // Check""", """    if (!_ejected_booksim_flit) {
      wait();
      continue;
    }
    {
      // Check"""),
   ("      int type = InverseVCMapping(vc_id);\n      int type_id = (type == AXI_TYPE_AR) ? 0 : (type == AXI_TYPE_AW) ? 1 : 2;\n",
    """      int type_id;
      switch (InverseVCMapping(vc_id)) {
      case AXI_TYPE_AR: type_id = 0; break;
      case AXI_TYPE_AW: type_id = 1; break;
      default: type_id = 2; break;
      }
""")]),
 ("mm_inverse_helper", "noc", MM, [("""  if (vc_id >= aw_vc_start && vc_id <= aw_vc_end) {
    return AXI_TYPE_AW;
  } else if (vc_id >= ar_vc_start && vc_id <= ar_vc_end) {
    return AXI_TYPE_AR;
  } else if (vc_id >= w_vc_start && vc_id <= w_vc_end) {
    return AXI_TYPE_W;
  } else {""", """  auto in_class = [vc_id](int lo, int hi) { return lo <= vc_id && vc_id <= hi; };
  if (in_class(aw_vc_start, aw_vc_end))
    return AXI_TYPE_AW;
  if (in_class(ar_vc_start, ar_vc_end))
    return AXI_TYPE_AR;
  if (in_class(w_vc_start, w_vc_end))
    return AXI_TYPE_W;
  {""")]),
 ("mm_depack_for", "noc", MM, [("""      unsigned int num_checked_fifos = 0;
      while (!fifo_has_complete_packet &&
             num_checked_fifos < AXI_NUM_REQ_TYPES) {
""", """      for (unsigned int num_checked_fifos = 0;
           num_checked_fifos < AXI_NUM_REQ_TYPES && !fifo_has_complete_packet;
           ++num_checked_fifos) {
"""), ("        num_checked_fifos++;\n", ""),
  ("          _output_afifo.push(_constructed_packet);\n          NoCTransactionTelemetry::RecordTransactionTailDepacketization(\n              processed_flit._sim_transaction_id);\n",
   "          NoCTransactionTelemetry::RecordTransactionTailDepacketization(\n              processed_flit._sim_transaction_id);\n          _output_afifo.push(_constructed_packet);\n")]),
 ("mm_output_nested", "noc", MM, [("""    if (_output_packet_ready &&
        (_output_packet.GetFlit(0)->_type == Flit::FlitType::READ_REQUEST) &&
        aximm_interface.arready.read()) {
""", """    const bool have = _output_packet_ready;
    const bool send_ar = have && (_output_packet.GetFlit(0)->_type == Flit::FlitType::READ_REQUEST) &&
        aximm_interface.arready.read();
    if (send_ar) {
""")]),
 ("mm_ready_hoist", "noc", MM, [("""    if (_injection_priority_setting.read() == 0) {
      _rready = !_injection_afifo_full && aximm_interface.rvalid.read();
      _bready =
          !_injection_afifo_full && !_rready && aximm_interface.bvalid.read();
    } else {""", """    const bool space = !_injection_afifo_full.read();
    if (_injection_priority_setting.read() == 0) {
      _rready = space && aximm_interface.rvalid.read();
      _bready = space && aximm_interface.bvalid.read() && !_rready;
    } else {""")]),
 ("mm_pack_merge", "noc", MM, [("""      uint8_t limit;
      if (_num_packetization_flits.read() >= _freq_ratio) {
        limit = _num_packetization_flits.read() - 1;
      } else {
        limit = _freq_ratio - 1;
      }
""", """      const uint8_t limit = (_num_packetization_flits.read() < _freq_ratio)
                                ? _freq_ratio - 1
                                : _num_packetization_flits.read() - 1;
""")]),
 ("mm_pack_loop_helper", "noc", MM, [("""          for (unsigned int flit_id = 0; flit_id < num_flits; flit_id++) {
            sc_flit packetization_flit(flit_id == 0, flit_id == num_flits - 1,
                                       flit_type, flit_vc_id,
                                       _i_noc_dest.read(), _i_type.read(),
                                       _i_id.read(), _i_unique_sim_id.read());
            set_flit_payload(packetization_flit, packet_bv, flit_id);
            _injection_afifo.push(packetization_flit);
          }
""", "          PushFlits(packet_bv, num_flits, flit_type, flit_vc_id);\n", ALL),
  ("void aximm_master_adapter::InputPacketization() {", """void aximm_master_adapter::PushFlits(sc_bv<AXI4_PAYLOADW> &packet_bv, unsigned int num_flits,
                                     Flit::FlitType flit_type, int flit_vc_id) {
  unsigned int flit_id = 0;
  while (flit_id < num_flits) {
    const bool is_head = flit_id == 0;
    const bool is_tail = flit_id + 1 == num_flits;
    sc_flit packetization_flit(is_head, is_tail, flit_type, flit_vc_id,
                               _i_noc_dest.read(), _i_type.read(),
                               _i_id.read(), _i_unique_sim_id.read());
    set_flit_payload(packetization_flit, packet_bv, flit_id);
    _injection_afifo.push(packetization_flit);
    flit_id++;
  }
}

void aximm_master_adapter::InputPacketization() {"""),
  (NOC + "aximm_master_adapter.hpp", "  void InputPacketization();", "  void InputPacketization();\n  void PushFlits(sc_bv<AXI4_PAYLOADW> &packet_bv, unsigned int num_flits,\n                 Flit::FlitType flit_type, int flit_vc_id);")]),
 ("mm_inject_helper", "noc", MM, [("""      if (!_buffer_state->IsFullFor(
              (int)_to_be_injected_flit._vc_id.to_uint()) &&
          (!_to_be_injected_flit._head || !_wait_for_tail_credit ||
           _buffer_state->IsAvailableFor(
               (int)_to_be_injected_flit._vc_id.to_uint()))) {
""", """      const int out_vc = (int)_to_be_injected_flit._vc_id.to_uint();
      bool can_send = !_buffer_state->IsFullFor(out_vc);
      if (can_send && _to_be_injected_flit._head && _wait_for_tail_credit)
        can_send = _buffer_state->IsAvailableFor(out_vc);
      if (can_send) {
"""), ("    if (!_injection_afifo.empty() || _injection_flit_ready) {\n      // If no flit was", "    if (_injection_flit_ready || !_injection_afifo.empty()) {\n      // If no flit was"),
  ("      if (!_injection_flit_ready && !_injection_afifo.empty()) {\n", "      if (!_injection_flit_ready) {\n")]),
 ("mm_inject_reorder", "noc", MM, [("""        booksim_flit->id = _to_be_injected_flit._sim_transaction_id;
        booksim_flit->pid = (int)_to_be_injected_flit._packet_id.to_uint();
        booksim_flit->watch = false;
""", """        booksim_flit->watch = false;
        booksim_flit->pid = (int)_to_be_injected_flit._packet_id.to_uint();
        booksim_flit->id = _to_be_injected_flit._sim_transaction_id;
"""), ("""        booksim_flit->ctime = GetSimulationCycle(
            radsim_config.GetDoubleVectorKnobPerRad("noc_clk_period", _network_id, _rad_id));
        booksim_flit->itime = GetSimulationCycle(
            radsim_config.GetDoubleVectorKnobPerRad("noc_clk_period", _network_id, _rad_id));
""", """        const int now = GetSimulationCycle(
            radsim_config.GetDoubleVectorKnobPerRad("noc_clk_period", _network_id, _rad_id));
        booksim_flit->itime = now;
        booksim_flit->ctime = now;
""")]),
 ("noc_types_range", "noc", NOC + "radsim_noc.cpp", [("""    for (auto it = axis_master_adapter_info[adapter_id]._port_types.begin();
         it != axis_master_adapter_info[adapter_id]._port_types.end(); it++)
      adapter_port_types.push_back(static_cast<Flit::FlitType>(*it));
""", """    for (const auto &port_type : axis_master_adapter_info[adapter_id]._port_types)
      adapter_port_types.push_back(static_cast<Flit::FlitType>(port_type));
""")]),
 ("noc_info_ref", "noc", NOC + "radsim_noc.cpp", [("axis_slave_adapter_info[adapter_id].", "info.", ALL),
   ("""    unsigned int num_adapter_ports =
        radsim_design->GetNumAxisSlaveAdapterPorts(_noc_id, adapter_id);
""", """    auto &info = axis_slave_adapter_info[adapter_id];
    unsigned int num_adapter_ports =
        radsim_design->GetNumAxisSlaveAdapterPorts(_noc_id, adapter_id);
""")]),
 ("noc_tick_helper", "noc", NOC + "radsim_noc.cpp", [("""    for (int node_id = 0; node_id < _num_noc_nodes; node_id++) {
      map<int, int>::const_iterator iter = _ejected_flits->find(node_id);
      if (iter != _ejected_flits->end()) {
        Credit *const c = Credit::New();
        c->vc.insert(iter->second);
        _booksim_noc->WriteCredit(c, node_id);
      }
    }
    _ejected_flits->clear();
""", """    for (int node_id = 0; node_id < _num_noc_nodes; ++node_id) {
      const auto iter = _ejected_flits->find(node_id);
      if (iter == _ejected_flits->end())
        continue;
      Credit *credit = Credit::New();
      credit->vc.insert(iter->second);
      _booksim_noc->WriteCredit(credit, node_id);
    }
    _ejected_flits->clear();
""")]),
 ("noc_tick_count", "noc", NOC + "radsim_noc.cpp", [("""      map<int, int>::const_iterator iter = _ejected_flits->find(node_id);
      if (iter != _ejected_flits->end()) {
        Credit *const c = Credit::New();
        c->vc.insert(iter->second);
""", """      if (_ejected_flits->count(node_id) != 0) {
        Credit *const c = Credit::New();
        c->vc.insert(_ejected_flits->at(node_id));
""")]),
 ("utils_switch", "noc", NOC + "noc_utils.cpp", [("""  if (type == Flit::READ_REQUEST) {
    return config->GetInt("read_request_begin_vc");
  } else if (type == Flit::WRITE_REQUEST) {
    return config->GetInt("write_request_begin_vc");
  } else if (type == Flit::WRITE_DATA) {
    return config->GetInt("write_data_begin_vc");
  } else if (type == Flit::READ_REPLY) {
    return config->GetInt("read_reply_begin_vc");
  } else {
    return config->GetInt("write_reply_begin_vc");
  }
""", """  const char *knob;
  switch (type) {
  case Flit::READ_REQUEST: knob = "read_request_begin_vc"; break;
  case Flit::WRITE_REQUEST: knob = "write_request_begin_vc"; break;
  case Flit::WRITE_DATA: knob = "write_data_begin_vc"; break;
  case Flit::READ_REPLY: knob = "read_reply_begin_vc"; break;
  default: knob = "write_reply_begin_vc"; break;
  }
  return config->GetInt(knob);
""")]),
 ("flit_init_list", "noc", NOC + "sc_flit.cpp", [("""                 unsigned int sim_transaction_id) {
  _head = head;
  _tail = tail;
  _type = type;
  _vc_id = vc_id;
  _dest = dest;
  _dest_interface = dest_interface;
  _packet_id = packet_id;
  _payload = AllocateFlitPayload();
  _sim_transaction_id = sim_transaction_id;
""", """                 unsigned int sim_transaction_id)
    : _head(head), _tail(tail), _type(type), _vc_id(vc_id), _dest(dest),
      _dest_interface(dest_interface), _packet_id(packet_id) {
  _sim_transaction_id = sim_transaction_id;
  _payload = AllocateFlitPayload();
"""), ("""  sc_bv<NOC_LINKS_PAYLOAD_WIDTH> *payload_ptr;
  if (_free.empty()) {
    payload_ptr = new sc_bv<NOC_LINKS_PAYLOAD_WIDTH>();
    _all.push(payload_ptr);
  } else {
    payload_ptr = _free.top();
    _free.pop();
  }
  return payload_ptr;
""", """  if (!_free.empty()) {
    sc_bv<NOC_LINKS_PAYLOAD_WIDTH> *recycled = _free.top();
    _free.pop();
    return recycled;
  }
  auto *fresh = new sc_bv<NOC_LINKS_PAYLOAD_WIDTH>();
  _all.push(fresh);
  return fresh;
""")]),
 ("flit_copy_helper", "noc", NOC + "sc_flit.cpp", [("""sc_flit &sc_flit::operator=(const sc_flit &f) {
  _head = f._head;
  _tail = f._tail;
  _type = f._type;
  _vc_id = f._vc_id;
  _dest = f._dest;
  _dest_interface = f._dest_interface;
  _packet_id = f._packet_id;
  _payload = AllocateFlitPayload();
  *_payload = *(f._payload);
  _sim_transaction_id = f._sim_transaction_id;
  return *this;
""", """sc_flit &sc_flit::operator=(const sc_flit &f) {
  CopyFrom(f);
  return *this;
"""), ("""sc_flit::~sc_flit() {}
""", """void sc_flit::CopyFrom(const sc_flit &f) {
  sc_bv<NOC_LINKS_PAYLOAD_WIDTH> *p = AllocateFlitPayload();
  *p = *(f._payload);
  _payload = p;
  _head = f._head;
  _tail = f._tail;
  _type = f._type;
  _vc_id = f._vc_id;
  _dest = f._dest;
  _dest_interface = f._dest_interface;
  _packet_id = f._packet_id;
  _sim_transaction_id = f._sim_transaction_id;
}

sc_flit::~sc_flit() {}
"""), (NOC + "sc_flit.hpp", "  ~sc_flit();", "  ~sc_flit();\n  void CopyFrom(const sc_flit &f);")]),
 ("tele_ref", "sim", SIM + "radsim_telemetry.cpp", [("""  trace_bookkeeping[id].t_recieve = sc_time_stamp().to_double() / 1000;
  trace_bookkeeping[id].total_latency_ns = trace_bookkeeping[id].t_recieve - trace_bookkeeping[id].t_init;
""", """  NoCTransactionTrace &entry = trace_bookkeeping[id];
  const double now = sc_time_stamp().to_double() / 1000;
  entry.total_latency_ns = now - entry.t_init;
  entry.t_recieve = now;
"""), ("""  global_transaction_id++;
  trace_bookkeeping[global_transaction_id] = entry;
  return global_transaction_id;
""", """  const int id = ++global_transaction_id;
  trace_bookkeeping[id] = entry;
  return id;
""")]),
 ("tele_dump_helper", "sim", SIM + "radsim_telemetry.cpp", [("""  for (auto& entry : trace_bookkeeping) {
    ofile << entry.first << ", " << entry.second.network_id << ", " << entry.second.src_node << ", " 
          << entry.second.dest_node << ", " << entry.second.dataw << ", " << entry.second.num_hops << ", " 
""", """  for (auto it = trace_bookkeeping.begin(); it != trace_bookkeeping.end(); ++it) {
    const auto& entry = *it;
    const NoCTransactionTrace& t = it->second;
    ofile << it->first << ", " << t.network_id << ", " << t.src_node << ", ";
    ofile << t.dest_node << ", " << t.dataw << ", " << t.num_hops << ", " 
""")]),
 ("tele_flows", "sim", SIM + "radsim_telemetry.cpp", [("""    if (traffic_bits[noc_id][src].find(dest) == traffic_bits[noc_id][src].end())
      traffic_bits[noc_id][src][dest] = entry.second.dataw;
    else
      traffic_bits[noc_id][src][dest] += entry.second.dataw;
""", """    auto& flows = traffic_bits[noc_id][src];
    if (flows.count(dest) > 0)
      flows[dest] += entry.second.dataw;
    else
      flows[dest] = entry.second.dataw;
"""), ("""      if (traffic_bits[noc_id][src_id].size() > 0) {
        for""", """      if (!traffic_bits[noc_id][src_id].empty()) {
        for""")]),
 ("tele_flows_noguard", "sim", SIM + "radsim_telemetry.cpp", [("""    if (traffic_bits[noc_id][src].find(dest) == traffic_bits[noc_id][src].end())
      traffic_bits[noc_id][src][dest] = entry.second.dataw;
    else
      traffic_bits[noc_id][src][dest] += entry.second.dataw;
""", """    traffic_bits[noc_id][src][dest] += entry.second.dataw;
""")]),
 ("log_helper", "sim", SIM + "radsim_telemetry.cpp", [("""  if (verbosity >= 3) {
    std::cout << "[INFO] " << module << " " << msg << std::endl;
    if (log_to_file) {
      log_file << "[INFO] " << module << " " << msg << std::endl;
    }
  }
""", """  if (verbosity < 3)
    return;
  std::cout << "[INFO] " << module << " " << msg << std::endl;
  if (!log_to_file)
    return;
  log_file << "[INFO] " << module << " " << msg << std::endl;
""")]),
 ("traces_range", "sim", SIM + "radsim_telemetry.cpp", [("""    for (unsigned int i = 0; i < trace_cycles[trace_id].size(); i++)
      trace_file << trace_cycles[trace_id][i] << " ";
""", """    for (auto &cycle : trace_cycles[trace_id])
      trace_file << cycle << " ";
""")]),
]
