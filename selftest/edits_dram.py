D = "rad-sim/sim/dram/"
MC = D + "mem_controller.cpp"
MH = D + "mem_controller.hpp"
ACC_R = """        if (_read_address_queue[ch_id].size() > 0) {
          std::tuple<uint64_t, uint64_t, bool> read_request =
              _read_address_queue[ch_id].front();
          uint64_t resp_addr = std::get<0>(read_request);
          uint64_t read_addr = std::get<1>(read_request);
          bool last = std::get<2>(read_request);
          if (_dramsim->WillAcceptTransaction(read_addr, false)) {
            _dramsim->AddTransaction(read_addr, false);
            _read_address_queue[ch_id].pop();
            _outstanding_read_requests[ch_id].push(
                std::make_tuple(read_addr, resp_addr, last));
          }
          // Issue write request to DRAMsim
        } else if (_write_data_queue[ch_id].size() > 0) {
          uint64_t resp_addr = _write_data_queue[ch_id].front().first;
          uint64_t write_addr = _write_address_queue[ch_id].front().first;
          bool last = _write_address_queue[ch_id].front().second;
          sc_bv<AXI4_MAX_DATAW> write_data =
              _write_data_queue[ch_id].front().second;
          if (_dramsim->WillAcceptTransaction(write_addr, true)) {
            _dramsim->AddTransaction(write_addr, true);
            _write_data_queue[ch_id].pop();
            _write_address_queue[ch_id].pop();
            _outstanding_write_requests[ch_id].push(
                std::make_tuple(resp_addr, write_data, last));
          }
        }
"""
ACC_W = """        if (_write_data_queue[ch_id].size() > 0) {
          uint64_t resp_addr = _write_data_queue[ch_id].front().first;
          uint64_t write_addr = _write_address_queue[ch_id].front().first;
          bool last = _write_address_queue[ch_id].front().second;
          sc_bv<AXI4_MAX_DATAW> write_data =
              _write_data_queue[ch_id].front().second;
          if (_dramsim->WillAcceptTransaction(write_addr, true)) {
            _dramsim->AddTransaction(write_addr, true);
            _write_data_queue[ch_id].pop();
            _write_address_queue[ch_id].pop();
            _outstanding_write_requests[ch_id].push(
                std::make_tuple(resp_addr, write_data, last));
          }
          // Issue read request to DRAMsim
        } else if (_read_address_queue[ch_id].size() > 0) {
          std::tuple<uint64_t, uint64_t, bool> read_request =
              _read_address_queue[ch_id].front();
          uint64_t resp_addr = std::get<0>(read_request);
          uint64_t read_addr = std::get<1>(read_request);
          bool last = std::get<2>(read_request);
          if (_dramsim->WillAcceptTransaction(read_addr, false)) {
            _dramsim->AddTransaction(read_addr, false);
            _read_address_queue[ch_id].pop();
            _outstanding_read_requests[ch_id].push(
                std::make_tuple(read_addr, resp_addr, last));
          }
"""
HELP = """void mem_controller::TryIssueRead(unsigned int ch) {
  const auto request = _read_address_queue[ch].front();
  const uint64_t addr = std::get<1>(request);
  if (!_dramsim->WillAcceptTransaction(addr, false))
    return;
  _dramsim->AddTransaction(addr, false);
  _read_address_queue[ch].pop();
  _outstanding_read_requests[ch].push(
      std::make_tuple(addr, std::get<0>(request), std::get<2>(request)));
}

void mem_controller::TryIssueWrite(unsigned int ch) {
  const auto addr_entry = _write_address_queue[ch].front();
  const auto data_entry = _write_data_queue[ch].front();
  if (!_dramsim->WillAcceptTransaction(addr_entry.first, true))
    return;
  _dramsim->AddTransaction(addr_entry.first, true);
  _write_address_queue[ch].pop();
  _write_data_queue[ch].pop();
  _outstanding_write_requests[ch].push(
      std::make_tuple(data_entry.first, data_entry.second, addr_entry.second));
}

void mem_controller::MemTick() {
"""
MASKS = [("bl", "co", "ba", "ro", "bg", "ra", "ch")]
EDITS = [
 ("mc_issue_helper", "dram", MC, [
     (ACC_R, """        if (_read_address_queue[ch_id].size() > 0) {
          TryIssueRead(ch_id);
        } else if (_write_data_queue[ch_id].size() > 0) {
          TryIssueWrite(ch_id);
        }
"""), (ACC_W, """        if (_write_data_queue[ch_id].size() > 0) {
          TryIssueWrite(ch_id);
        } else if (_read_address_queue[ch_id].size() > 0) {
          TryIssueRead(ch_id);
"""), ("void mem_controller::MemTick() {\n", HELP),
     (MH, "  void MemTick();\n", "  void MemTick();\n  void TryIssueRead(unsigned int ch);\n  void TryIssueWrite(unsigned int ch);\n")]),
 ("mc_empty", "dram", MC, [
     ("if (_read_address_queue[ch_id].size() > 0) {\n          std::tuple", "if (!_read_address_queue[ch_id].empty()) {\n          std::tuple", "*"),
     ("if (_write_data_queue[ch_id].size() > 0) {\n          uint64_t", "if (!_write_data_queue[ch_id].empty()) {\n          uint64_t", "*"),
     ("bvalid.write(_output_write_responses[ch_id].size() >\n                                       0)", "bvalid.write(!_output_write_responses[ch_id].empty())"),
     ("      if (_output_read_responses[ch_id].size() > 0) {\n        mem_channels[ch_id].rdata.write(\n            std::get<1>(_output_read_responses[ch_id].front()));\n        mem_channels[ch_id].rlast.write(\n            std::get<2>(_output_read_responses[ch_id].front()));\n        mem_channels[ch_id].ruser.write(\n            std::get<0>(_output_read_responses[ch_id].front()));",
      "      if (!_output_read_responses[ch_id].empty()) {\n        const auto &head = _output_read_responses[ch_id].front();\n        mem_channels[ch_id].ruser.write(std::get<0>(head));\n        mem_channels[ch_id].rdata.write(std::get<1>(head));\n        mem_channels[ch_id].rlast.write(std::get<2>(head));")]),
 ("mc_burst_helper", "dram", MC, [
     ("""        unsigned int transaction_size_in_bytes =
            (1 << mem_channels[ch_id].awsize.read().to_uint());
        unsigned int transaction_size = (unsigned int)ceil(
            1.0 * transaction_size_in_bytes / _addressable_size_bytes);
        unsigned int transaction_length =
            mem_channels[ch_id].awlen.read().to_uint() + 1;
        unsigned int burst_size = transaction_size * transaction_length;
""", """        unsigned int burst_size =
            BurstWords(mem_channels[ch_id].awsize.read().to_uint(),
                       mem_channels[ch_id].awlen.read().to_uint());
"""), ("""        unsigned int transaction_size_in_bytes =
            (1 << mem_channels[ch_id].arsize.read().to_uint());
        unsigned int transaction_size = (unsigned int)ceil(
            1.0 * transaction_size_in_bytes / _addressable_size_bytes);
        unsigned int transaction_length =
            mem_channels[ch_id].arlen.read().to_uint() + 1;
        unsigned int burst_size = transaction_size * transaction_length;
""", """        unsigned int burst_size =
            BurstWords(mem_channels[ch_id].arsize.read().to_uint(),
                       mem_channels[ch_id].arlen.read().to_uint());
"""), ("void mem_controller::Tick() {\n", """unsigned int mem_controller::BurstWords(unsigned int size_field,
                                        unsigned int len_field) const {
  const unsigned int bytes = (1 << size_field);
  const unsigned int words_per_beat =
      (unsigned int)ceil(1.0 * bytes / _addressable_size_bytes);
  return words_per_beat * (len_field + 1);
}

void mem_controller::Tick() {
"""), (MH, "  void MemTick();\n", "  void MemTick();\n  unsigned int BurstWords(unsigned int size_field, unsigned int len_field) const;\n")]),
 ("mc_addrmap_lambda", "dram", MC, [
     ("""  field_values["bl"] = working_addr & ((1 << _field_widths["bl"]) - 1);
  working_addr >>= _field_widths["bl"];
  field_values["co"] = working_addr & ((1 << _field_widths["co"]) - 1);
  working_addr >>= _field_widths["co"];
  field_values["ba"] = working_addr & ((1 << _field_widths["ba"]) - 1);
  working_addr >>= _field_widths["ba"];
""", """  auto take = [&](const std::string &field) {
    field_values[field] = working_addr & ((1 << _field_widths[field]) - 1);
    working_addr >>= _field_widths[field];
  };
  take("bl");
  take("co");
  take("ba");
"""), ("""    std::string token = _mem_addr_fields[f];
    translated_addr <<= _field_widths[token];
    if (token == "ch") {
      translated_addr += channel_id;
    } else {
      translated_addr += field_values[token];
    }
""", """    const std::string &token = _mem_addr_fields[f];
    const uint64_t part = (token == "ch") ? channel_id : field_values[token];
    translated_addr = (translated_addr << _field_widths[token]) + part;
""")]),
 ("mc_addrmap_range", "dram", MC, [
     ("""  for (unsigned int f = 0; f < _mem_addr_fields.size(); f++) {
    std::string token = _mem_addr_fields[f];
    translated_addr""", """  for (const std::string &token : _mem_addr_fields) {
    translated_addr"""),
     ("""  uint64_t shifted_addr = (addr >> skip_bits);
  uint64_t mask = ((1 << _field_widths["ch"]) - 1);
  unsigned int channel_id = shifted_addr & mask;
  return channel_id;
""", """  return (addr >> skip_bits) & ((1 << _field_widths["ch"]) - 1);
""")]),
 ("mc_chan_loop", "dram", MC, [
     ("""    if (token != "ch") {
      skip_bits += _field_widths[token];
    } else {
      break;
    }
""", """    if (token == "ch")
      break;
    skip_bits += _field_widths[token];
""")]),
 ("mc_ooo_loop", "dram", MC, [
     ("""    bool flag;
    _outstanding_read_requests""", """    _outstanding_read_requests"""),
     ("""    do {
      flag = false;
      if (_outstanding_read_requests[ch_id].empty())
        break;
      uint64_t front_addr""", """    while (!_outstanding_read_requests[ch_id].empty()) {
      uint64_t front_addr"""),
     ("""      if (_out_of_order_read_requests[ch_id].find(front_addr) !=
          _out_of_order_read_requests[ch_id].end()) {
        read_addr = front_addr;
""", """      if (_out_of_order_read_requests[ch_id].find(front_addr) ==
          _out_of_order_read_requests[ch_id].end())
        break;
      {
"""), ("""        flag = true;
      }
    } while (flag);
""", """      }
    }
""")]),
 ("mc_data_helper", "dram", MC, [
     ("""  sc_bv<AXI4_MAX_DATAW> data_word;
  if (_mem_contents[ch_id].find(addr) != _mem_contents[ch_id].end()) {
    data_word = _mem_contents[ch_id][addr];
  } else {
    sim_log.log(warning, "Read from uninitialized address = " + to_string(addr),
                this->name());
    data_word = 0;
  }
""", """  sc_bv<AXI4_MAX_DATAW> data_word = LookupWord(ch_id, addr);
"""), ("""        if (_mem_contents[ch_id].find(front_addr) !=
            _mem_contents[ch_id].end()) {
          data_word = _mem_contents[ch_id][front_addr];
        } else {
          sim_log.log(warning,
                      "Read from uninitialized address = " +
                          to_string(front_addr),
                      this->name());
          data_word = 0;
        }
""", """        data_word = LookupWord(ch_id, front_addr);
"""), ("void mem_controller::MemReadCallback(uint64_t addr) {", """sc_bv<AXI4_MAX_DATAW> mem_controller::LookupWord(unsigned int ch, uint64_t addr) {
  if (_mem_contents[ch].find(addr) != _mem_contents[ch].end())
    return _mem_contents[ch][addr];
  sim_log.log(warning, "Read from uninitialized address = " + to_string(addr),
              this->name());
  sc_bv<AXI4_MAX_DATAW> zero;
  zero = 0;
  return zero;
}

void mem_controller::MemReadCallback(uint64_t addr) {"""),
     (MH, "  void MemTick();\n", "  void MemTick();\n  sc_bv<AXI4_MAX_DATAW> LookupWord(unsigned int ch, uint64_t addr);\n")]),
 ("mc_assign_merge", "dram", MC, [
     ("""      bool read_input_queue_ok =
          _read_address_queue_occupancy[ch_id] < _input_queue_size - 16;
      bool read_output_queue_ok =
          (_num_outstanding_read_requests[ch_id] +
           _output_read_queue_occupancy[ch_id]) < _output_queue_size - 16;
""", """      const auto in_limit = _input_queue_size - 16;
      const auto out_limit = _output_queue_size - 16;
      bool read_ok = _read_address_queue_occupancy[ch_id] < in_limit;
      if (read_ok)
        read_ok = (_num_outstanding_read_requests[ch_id] +
                   _output_read_queue_occupancy[ch_id]) < out_limit;
"""), ("arready.write(read_input_queue_ok &&\n                                        read_output_queue_ok);", "arready.write(read_ok);"),
     ("""          _write_address_queue_occupancy[ch_id] > 0 &&
          _write_data_queue_occupancy[ch_id] < _input_queue_size - 16 &&
          write_output_queue_ok);""", """          write_output_queue_ok && _write_data_queue_occupancy[ch_id] < in_limit &&
          _write_address_queue_occupancy[ch_id] != 0);""")]),
 ("mc_assign_reset", "dram", MC, [
     ("""  if (rst.read()) {
    for (unsigned int ch_id = 0; ch_id < _num_channels; ch_id++) {
      mem_channels[ch_id].awready.write(false);
      mem_channels[ch_id].wready.write(false);
      mem_channels[ch_id].arready.write(false);
    }
  } else {
    for (unsigned int ch_id = 0; ch_id < _num_channels; ch_id++) {
      bool read""", """  const bool in_reset = rst.read();
  for (unsigned int ch_id = 0; ch_id < _num_channels; ch_id++) {
    if (in_reset) {
      mem_channels[ch_id].awready.write(false);
      mem_channels[ch_id].wready.write(false);
      mem_channels[ch_id].arready.write(false);
    } else {
      bool read""")]),
 ("mc_drain_helper", "dram", MC, [
     ("""    while (!_write_address_queue[ch_id].empty())
      _write_address_queue[ch_id].pop();
    while (!_write_data_queue[ch_id].empty())
      _write_data_queue[ch_id].pop();
    while (!_read_address_queue[ch_id].empty())
      _read_address_queue[ch_id].pop();
""", """    DrainQueue(_write_address_queue[ch_id]);
    DrainQueue(_write_data_queue[ch_id]);
    DrainQueue(_read_address_queue[ch_id]);
"""), ("#include <mem_controller.hpp>\n", """#include <mem_controller.hpp>

namespace {
template <typename Q> void DrainQueue(Q &q) {
  while (!q.empty())
    q.pop();
}
} // namespace
""")]),
 ("mc_toggle", "dram", MC, [
     ("""        }
      }
      _read_before_write = !_read_before_write;
    }
    wait();
""", """        }
      }
      _read_before_write = true;
    }
    wait();
""")]),
 ("mc_init_loop", "dram", MC, [
     ("""  for (unsigned int i = 0; i < address_mapping.size(); i += 2) {
    std::string token = address_mapping.substr(i, 2);
    _mem_addr_fields.push_back(token);
  }
""", """  unsigned int pos = 0;
  while (pos < address_mapping.size()) {
    _mem_addr_fields.push_back(address_mapping.substr(pos, 2));
    pos += 2;
  }
"""), ("""  std::string name =
      init_filename.substr(0, init_filename.find_last_of("_") + 1);
  std::string base_idx_str =
      init_filename.substr(init_filename.find_last_of("_") + 1);
  unsigned int base_idx = std::stoi(base_idx_str);
""", """  const auto split = init_filename.find_last_of("_") + 1;
  std::string name = init_filename.substr(0, split);
  unsigned int base_idx = std::stoi(init_filename.substr(split));
""")]),
]
