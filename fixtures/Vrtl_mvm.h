// Parse-time stand-in for the header Verilator generates from mlp_int8's RTL.
#pragma once
struct VerilatedPortStub { template <class P> void operator()(P &) {} };
struct Vrtl_mvm {
  explicit Vrtl_mvm(const char *) {}
  void final() {}
  VerilatedPortStub clk, rst, axis_rx_tvalid, axis_rx_tdata, axis_rx_tstrb, axis_rx_tkeep, axis_rx_tid, axis_rx_tdest,
      axis_rx_tuser, axis_rx_tlast, axis_rx_tready, axis_tx_tvalid, axis_tx_tdata, axis_tx_tstrb, axis_tx_tkeep,
      axis_tx_tid, axis_tx_tdest, axis_tx_tuser, axis_tx_tlast, axis_tx_tready;
};
