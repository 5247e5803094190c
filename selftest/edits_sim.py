S = "rad-sim/sim/"
DC = S + "design_context.cpp"
IR = S + "radsim_inter_rad.cpp"
PO = S + "portal.cpp"
RC = S + "radsim_config.cpp"
LISTADD = """          if (_node_id_ports_list[port_noc_placement].find(
                  port_node_placement) ==
              _node_id_ports_list[port_noc_placement].end()) {
            std::vector<std::string> port_list;
            port_list.push_back(port_name);
            _node_id_ports_list[port_noc_placement][port_node_placement] =
                port_list;
          } else {
            _node_id_ports_list[port_noc_placement][port_node_placement]
                .push_back(port_name);
          }
"""
EDITS = [
 ("dc_base_max", "sim", DC, [("""    int num_nodes = radsim_config.GetIntVectorKnobPerRad("noc_num_nodes", noc_id, rad_id);
    if (num_nodes > max_num_nodes) {
      max_num_nodes = num_nodes;
    }
""", """    max_num_nodes = std::max(max_num_nodes, radsim_config.GetIntVectorKnobPerRad("noc_num_nodes", noc_id, rad_id));
""")]),
 ("dc_base_expr", "sim", DC, [("""  uint64_t base_addr = noc_id << node_bits;
  base_addr += node_id;
  base_addr <<= (AXI4_ADDRW - noc_bits - node_bits);
  return base_addr;
""", """  const int shift = AXI4_ADDRW - (noc_bits + node_bits);
  uint64_t prefix = noc_id << node_bits;
  prefix += node_id;
  return prefix << shift;
""")]),
 ("dc_list_add", "sim", DC, [(LISTADD, """          _node_id_ports_list[port_noc_placement][port_node_placement].push_back(port_name);
""", "*")]),
 ("dc_list_ref", "sim", DC, [(LISTADD, """          auto &lists = _node_id_ports_list[port_noc_placement];
          auto found = lists.find(port_node_placement);
          if (found != lists.end()) {
            found->second.push_back(port_name);
          } else {
            lists[port_node_placement] = std::vector<std::string>(1, port_name);
          }
""", "*")]),
 ("dc_list_helper", "sim", DC, [(LISTADD, "          AddPort(_node_id_ports_list[port_noc_placement], port_node_placement, port_name);\n", "*"),
  ("void RADSimDesignContext::ParseNoCPlacement(", """static void AddPort(std::unordered_map<unsigned int, std::vector<std::string>> &lists, int node, const std::string &port) {
  if (lists.find(node) == lists.end()) {
    std::vector<std::string> port_list;
    port_list.push_back(port);
    lists[node] = port_list;
    return;
  }
  lists[node].push_back(port);
}

void RADSimDesignContext::ParseNoCPlacement(""")]),
 ("dc_clk_inline", "sim", DC, [("""    int adapter_clk_idx = std::stoi(adapter_clk_str);
    int module_clk_idx = std::stoi(module_clk_str);

    _module_clk_settings[module_name] =
        std::make_pair(adapter_clk_idx, module_clk_idx);
""", """    auto &setting = _module_clk_settings[module_name];
    setting.first = std::stoi(adapter_clk_str);
    setting.second = std::stoi(module_clk_str);
""")]),
 ("dc_build_swap", "sim", DC, [("""        if (!is_slave) {
          slave_port_names.push_back(port_name);
          slave_port_types.push_back(module_ptr->_ports_types[port_name]);
          slave_port_dataw.push_back(module_ptr->_ports_dataw[port_name]);
          slave_port_is_aximm.push_back(module_ptr->_ports_is_aximm[port_name]);
          std::get<2>(_port_placement[port_name]) = slave_port_id;
          slave_port_id++;
        } else {
          master_port_names.push_back(port_name);
          master_port_types.push_back(module_ptr->_ports_types[port_name]);
          master_port_dataw.push_back(module_ptr->_ports_dataw[port_name]);
          master_port_is_aximm.push_back(
              module_ptr->_ports_is_aximm[port_name]);
          std::get<2>(_port_placement[port_name]) = master_port_id;
          master_port_id++;
        }
""", """        if (is_slave) {
          master_port_names.push_back(port_name);
          master_port_is_aximm.push_back(
              module_ptr->_ports_is_aximm[port_name]);
          master_port_types.push_back(module_ptr->_ports_types[port_name]);
          master_port_dataw.push_back(module_ptr->_ports_dataw[port_name]);
          std::get<2>(_port_placement[port_name]) = master_port_id++;
        } else {
          slave_port_names.push_back(port_name);
          slave_port_types.push_back(module_ptr->_ports_types[port_name]);
          slave_port_dataw.push_back(module_ptr->_ports_dataw[port_name]);
          slave_port_is_aximm.push_back(module_ptr->_ports_is_aximm[port_name]);
          std::get<2>(_port_placement[port_name]) = slave_port_id++;
        }
""")]),
 ("dc_build_range", "sim", DC, [("""    for (auto node_it = _node_id_ports_list[noc_id].begin();
         node_it != _node_id_ports_list[noc_id].end(); node_it++) {
      unsigned int node_id = node_it->first;
      std::vector<std::string> port_list = node_it->second;
""", """    for (const auto &node : _node_id_ports_list[noc_id]) {
      const unsigned int node_id = node.first;
      std::vector<std::string> port_list = node.second;
"""), ("""      for (unsigned int port_id = 0; port_id < port_list.size(); port_id++) {
        std::string port_name = port_list[port_id];
""", """      for (std::string port_name : port_list) {
""")]),
 ("dc_build_adapter_helper", "sim", DC, [("""        slave_adapter._noc_id = noc_id;
        slave_adapter._node_id = node_id;
        slave_adapter._adapter_clk_idx = adapter_clk_idx;
        slave_adapter._module_clk_idx = module_clk_idx;
        slave_adapter._port_names = slave_port_names;
        slave_adapter._port_types = slave_port_types;
        slave_adapter._port_dataw = slave_port_dataw;
        slave_adapter._is_aximm = slave_port_is_aximm[0];
""", """        FillAdapter(slave_adapter, noc_id, node_id, adapter_clk_idx, module_clk_idx);
        slave_adapter._is_aximm = slave_port_is_aximm[0];
        slave_adapter._port_names = slave_port_names;
        slave_adapter._port_types = slave_port_types;
        slave_adapter._port_dataw = slave_port_dataw;
"""), ("""        master_adapter._noc_id = noc_id;
        master_adapter._node_id = node_id;
        master_adapter._adapter_clk_idx = adapter_clk_idx;
        master_adapter._module_clk_idx = module_clk_idx;
""", "        FillAdapter(master_adapter, noc_id, node_id, adapter_clk_idx, module_clk_idx);\n"),
  ("void RADSimDesignContext::BuildDesignContext(", """static void FillAdapter(AdapterInfo &info, unsigned int noc, unsigned int node, unsigned int adapter_clk, unsigned int module_clk) {
  info._node_id = node;
  info._noc_id = noc;
  info._module_clk_idx = module_clk;
  info._adapter_clk_idx = adapter_clk;
}

void RADSimDesignContext::BuildDesignContext(""")]),
 ("dc_signal_counts", "sim", DC, [("""    for (unsigned int port_id = 0;
         port_id < _num_noc_aximm_slave_ports[noc_id].size(); port_id++) {
      aximm_signal_count += 1;
    }
    for (unsigned int port_id = 0;
         port_id < _num_noc_aximm_master_ports[noc_id].size(); port_id++) {
      aximm_signal_count += 1;
    }
""", """    aximm_signal_count += _num_noc_aximm_slave_ports[noc_id].size();
    aximm_signal_count += _num_noc_aximm_master_ports[noc_id].size();
""")]),
 ("dc_axis_counts_range", "sim", DC, [("""    for (unsigned int port_id = 0;
         port_id < _num_noc_axis_slave_ports[noc_id].size(); port_id++)
      axis_signal_count += _num_noc_axis_slave_ports[noc_id][port_id];
""", """    for (auto count : _num_noc_axis_slave_ports[noc_id])
      axis_signal_count += count;
""")]),
 ("dc_connect_range", "sim", DC, [("""    for (auto master_port_it = module_ptr->_axis_master_ports.begin();
         master_port_it != module_ptr->_axis_master_ports.end();
         master_port_it++) {
      std::string port_name = master_port_it->first;
""", """    for (auto &entry : module_ptr->_axis_master_ports) {
      auto *master_port_it = &entry;
      std::string port_name = entry.first;
""")]),
 ("dc_connect_preinc", "sim", DC, [("""      unsigned int noc_id = std::get<0>(_port_placement[port_name]);
      _aximm_signals[aximm_signal_id].Connect(
          *(master_port_it->second),
          *(_noc_aximm_slave_ports[noc_id][port_name]));
      aximm_signal_id++;
""", """      const unsigned int noc_id = std::get<0>(_port_placement[port_name]);
      auto &signal = _aximm_signals[aximm_signal_id++];
      signal.Connect(*(master_port_it->second), *(_noc_aximm_slave_ports[noc_id][port_name]));
""")]),
 ("dc_getters", "sim", DC, [("""  if (is_aximm) {
    return _num_noc_aximm_slave_ports[noc_id].size();
  } else {
    return _num_noc_axis_slave_ports[noc_id].size();
  }
""", """  return is_aximm ? _num_noc_aximm_slave_ports[noc_id].size()
                  : _num_noc_axis_slave_ports[noc_id].size();
"""), ("""  if (_noc_axis_slave_ports[noc_id].find(port_name) ==
      _noc_axis_slave_ports[noc_id].end()) {
    std::cerr << "Cannot find " << port_name << " in list of slave NoC ports"
              << std::endl;
    exit(1);
  }
  return _noc_axis_slave_ports[noc_id][port_name];
""", """  const auto it = _noc_axis_slave_ports[noc_id].find(port_name);
  if (it != _noc_axis_slave_ports[noc_id].end())
    return it->second;
  std::cerr << "Cannot find " << port_name << " in list of slave NoC ports"
            << std::endl;
  exit(1);
""")]),
 ("ir_ready_ternary", "sim", IR, [("""            if (bw_counter < radsim_config.GetIntKnobShared("inter_rad_bw_accept_cycles")) {
                all_axis_slave_ports[i]->tready.write(true);
            }
            else {
                all_axis_slave_ports[i]->tready.write(false);
            }
""", """            const bool accept = bw_counter < radsim_config.GetIntKnobShared("inter_rad_bw_accept_cycles");
            all_axis_slave_ports[i]->tready.write(accept);
""")]),
 ("ir_counter_mod", "sim", IR, [("""        if (bw_counter >= (radsim_config.GetIntKnobShared("inter_rad_bw_total_cycles") - 1)) {
            bw_counter = 0;
        }
        else {
            bw_counter++;
        }
""", """        bw_counter++;
        if (bw_counter >= radsim_config.GetIntKnobShared("inter_rad_bw_total_cycles"))
            bw_counter = 0;
""")]),
 ("ir_port_ref", "sim", IR, [("""            //Obtain relevant axi-s fields
""", """            axis_slave_port &port = *all_axis_slave_ports[i];
"""), ("""            curr_transaction.tdata = all_axis_slave_ports[i]->tdata.read();
            curr_transaction.tuser = all_axis_slave_ports[i]->tuser.read();
            curr_transaction.tvalid = all_axis_slave_ports[i]->tvalid.read();
            curr_transaction.tlast = all_axis_slave_ports[i]->tlast.read();
""", """            curr_transaction.tvalid = port.tvalid.read();
            curr_transaction.tdata = port.tdata.read();
            curr_transaction.tuser = port.tuser.read();
            curr_transaction.tlast = port.tlast.read();
"""), ("if (curr_transaction.tvalid && all_axis_slave_ports[i]->tready.read()) {", "if (port.tready.read() && curr_transaction.tvalid) {")]),
 ("ir_write_helper", "sim", IR, [("""                if (this->fifos[dest_rad]->nb_write(curr_transaction) != false) { //there was an available slot to write to
                    fifos_latency_counters[dest_rad].push_back(0); //for latency counters
                }
                else {
""", """                const bool stored = this->fifos[dest_rad]->nb_write(curr_transaction);
                if (stored)
                    fifos_latency_counters[dest_rad].push_back(0);
                if (!stored) {
""")]),
 ("ir_read_restructure", "sim", IR, [("""            if ( (this->fifos[i]->num_available() != 0) && (fifos_latency_counters[i][0] >= target_delay) ){ //check that fifo is not empty
                fifos_latency_counters""", """            const bool due = (this->fifos[i]->num_available() > 0) && !(fifos_latency_counters[i][0] < target_delay);
            if (due) {
                fifos_latency_counters""")]),
 ("ir_read_range", "sim", IR, [("""            for (unsigned int j = 0; j < fifos_latency_counters[i].size(); j++) {
                fifos_latency_counters[i][j]++;
            }
""", """            for (auto &age : fifos_latency_counters[i])
                ++age;
""")]),
 ("ir_read_default", "sim", IR, [("""                if (read_from_fifo.tvalid) {
                    all_axis_master_signals[dest_device]->tdata.write(val);
                    all_axis_master_signals[dest_device]->tvalid.write(read_from_fifo.tvalid);
                    all_axis_master_signals[dest_device]->tlast.write(read_from_fifo.tlast);
                    all_axis_master_signals[dest_device]->tdest.write(read_from_fifo.tdest);
                    all_axis_master_signals[dest_device]->tuser.write(read_from_fifo.tuser);
                }
""", """                if (read_from_fifo.tvalid) {
                    axis_signal *out = all_axis_master_signals[dest_device];
                    out->tuser.write(read_from_fifo.tuser);
                    out->tdest.write(read_from_fifo.tdest);
                    out->tlast.write(read_from_fifo.tlast);
                    out->tdata.write(val);
                    out->tvalid.write(true);
                }
""")]),
 ("portal_ready", "sim", PO, [("""    if (rst) {
        portal_axis_slave.tready.write(false);
        axis_portal_slave_interface.tready.write(false);
    }
    else {
        //Always ready to accept from NoC because we have FIFO buffers in both directions
        //Not exerting back-pressure
        portal_axis_slave.tready.write(true);
        axis_portal_slave_interface.tready.write(true);
    }
""", """    const bool ready = !rst.read();
    axis_portal_slave_interface.tready.write(ready);
    portal_axis_slave.tready.write(ready);
""")]),
 ("portal_empty", "sim", PO, [("        if ((portal_axis_fifo_noc_incoming.size() > 0) ) { //&& test_ready_toggle) {\n            portal_axis_fields curr_transaction = portal_axis_fifo_noc_incoming.front();",
   "        if (!portal_axis_fifo_noc_incoming.empty()) {\n            const portal_axis_fields &curr_transaction = portal_axis_fifo_noc_incoming.front();")]),
 ("portal_cycle_hoist", "sim", PO, [("""                int curr_cycle = GetSimulationCycle(radsim_config.GetDoubleKnobShared("sim_driver_period"));
                portal_axis_fifo_noc_outgoing.pop();
                if (axis_portal_master_interface.tlast.read()) {
""", """                portal_axis_fifo_noc_outgoing.pop();
                const int curr_cycle = GetSimulationCycle(radsim_config.GetDoubleKnobShared("sim_driver_period"));
                if (axis_portal_master_interface.tlast.read()) {
""")]),
 ("portal_fields", "sim", PO, [("""             portal_axis_fields curr_transaction = {
                portal_axis_slave.tvalid.read(),
                portal_axis_slave.tready.read(),
                portal_axis_slave.tdata.read(),
                portal_axis_slave.tstrb.read(),
                portal_axis_slave.tkeep.read(),
                portal_axis_slave.tlast.read(),
                portal_axis_slave.tid.read(),
                portal_axis_slave.tdest.read(),
                portal_axis_slave.tuser.read() //tuser field
             };

            portal_axis_fifo_noc_outgoing.push(curr_transaction);
""", """            portal_axis_fields beat;
            beat.tvalid = portal_axis_slave.tvalid.read();
            beat.tready = portal_axis_slave.tready.read();
            beat.tdata = portal_axis_slave.tdata.read();
            beat.tstrb = portal_axis_slave.tstrb.read();
            beat.tkeep = portal_axis_slave.tkeep.read();
            beat.tlast = portal_axis_slave.tlast.read();
            beat.tid = portal_axis_slave.tid.read();
            beat.tdest = portal_axis_slave.tdest.read();
            beat.tuser = portal_axis_slave.tuser.read();
            portal_axis_fifo_noc_outgoing.push(beat);
""")]),
 ("rc_has_count", "sim", RC, [("  return (_double_vector_knobs_shared.find(key) != _double_vector_knobs_shared.end());", "  return _double_vector_knobs_shared.count(key) > 0;")]),
 ("rc_rad_helper", "sim", RC, [("""      std::string rad_id_str;
      std::getline(ss, rad_id_str, ' ');
      unsigned int rad_id = std::stoi(rad_id_str);
""", "      unsigned int rad_id = NextInt(ss);\n", "*"),
  ("void ParseRADSimKnobs(", """static int NextInt(std::stringstream &ss) {
  std::string word;
  std::getline(ss, word, ' ');
  return std::stoi(word);
}

void ParseRADSimKnobs(""")]),
 ("rc_vec_inline", "sim", RC, [("""      std::vector<int> value;
      std::string value_element_str;
      int value_element;
      while (getline(ss, value_element_str, ' ')) {
        value_element = std::stoi(value_element_str);
        value.push_back(value_element);
      }
""", """      std::vector<int> value;
      std::string word;
      while (std::getline(ss, word, ' '))
        value.push_back(std::stoi(word));
"""), ("""        if (value_element > max_period) {
          max_period = value_element;
        }
""", """        max_period = std::max(max_period, value_element);
""")]),
 ("rc_dispatch_order", "sim", RC, [("""    } else if (param == "cluster_configs") {
      continue; //go to next iteration, not using this knob for anything currently. was used to generate the radsim_knobs file.
    }
    else {
""", """    } else if (param != "cluster_configs") {
""")]),
 ("rc_get_iter", "sim", RC, [("""  if (_double_vector_knobs_per_rad[rad_id].find(key) == _double_vector_knobs_per_rad[rad_id].end()) {
    std::cerr << "GetDoubleVectorKnobPerRAD: Cannot find configuration parameter \\""
              << key << "\\"" << std::endl;
    exit(1);
  }
  return _double_vector_knobs_per_rad[rad_id][key][idx];
""", """  auto &knobs = _double_vector_knobs_per_rad[rad_id];
  auto knob = knobs.find(key);
  if (knob == knobs.end()) {
    std::cerr << "GetDoubleVectorKnobPerRAD: Cannot find configuration parameter \\""
              << key << "\\"" << std::endl;
    exit(1);
  }
  return knob->second[idx];
""")]),
]
