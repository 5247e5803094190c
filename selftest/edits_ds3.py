R = "rad-sim/sim/dram/DRAMsim3/src/"
BS, CQ, CT, CS, DS, RF = (R + x for x in ("bankstate.cc", "command_queue.cc", "controller.cc", "channel_state.cc", "dram_system.cc", "refresh.cc"))
CSH, CTH, CQH = R + "channel_state.h", R + "controller.h", R + "command_queue.h"
EDITS = [
 ("bs_ternary", "dramsim3", BS, [("""                    if (cmd.Row() == open_row_) {
                        required_type = cmd.cmd_type;
                    } else {
                        required_type = CommandType::PRECHARGE;
                    }
""", """                    required_type = (open_row_ == cmd.Row()) ? cmd.cmd_type
                                                             : CommandType::PRECHARGE;
"""), ("""    if (required_type != CommandType::SIZE) {
        if (clk >= cmd_timing_[static_cast<int>(required_type)]) {
            return Command(required_type, cmd.addr, cmd.hex_addr);
        }
    }
    return Command();
""", """    if (required_type == CommandType::SIZE ||
        clk < cmd_timing_[static_cast<int>(required_type)]) {
        return Command();
    }
    return Command(required_type, cmd.addr, cmd.hex_addr);
""")]),
 ("bs_close_helper", "dramsim3", BS, [("""                    state_ = State::CLOSED;
                    open_row_ = -1;
                    row_hit_count_ = 0;
                    break;
""", """                    CloseRow();
                    break;
"""), ("void BankState::UpdateTiming(", """void BankState::CloseRow() {
    open_row_ = -1;
    row_hit_count_ = 0;
    state_ = State::CLOSED;
}

void BankState::UpdateTiming("""), (R + "bankstate.h", "    bool IsRowOpen() const {", "    void CloseRow();\n    bool IsRowOpen() const {")]),
 ("bs_timing_if", "dramsim3", BS, [("""    cmd_timing_[static_cast<int>(cmd_type)] =
        std::max(cmd_timing_[static_cast<int>(cmd_type)], time);
    return;
""", """    uint64_t &slot = cmd_timing_[static_cast<int>(cmd_type)];
    if (slot < time) {
        slot = time;
    }
""")]),
 ("bs_ctor_fill", "dramsim3", BS, [("""    cmd_timing_[static_cast<int>(CommandType::READ)] = 0;
    cmd_timing_[static_cast<int>(CommandType::READ_PRECHARGE)] = 0;
    cmd_timing_[static_cast<int>(CommandType::WRITE)] = 0;
    cmd_timing_[static_cast<int>(CommandType::WRITE_PRECHARGE)] = 0;
""", """    for (CommandType type : {CommandType::READ, CommandType::READ_PRECHARGE,
                             CommandType::WRITE, CommandType::WRITE_PRECHARGE}) {
        cmd_timing_[static_cast<int>(type)] = 0;
    }
""")]),
 ("bs_if_chain", "dramsim3", BS, [("""        case State::SREF:
            switch (cmd.cmd_type) {
                case CommandType::SREF_EXIT:
                    state_ = State::CLOSED;
                    break;
                case CommandType::READ:
                case CommandType::WRITE:
                case CommandType::READ_PRECHARGE:
                case CommandType::WRITE_PRECHARGE:
                case CommandType::ACTIVATE:
                case CommandType::PRECHARGE:
                case CommandType::REFRESH:
                case CommandType::REFRESH_BANK:
                case CommandType::SREF_ENTER:
                default:
                    AbruptExit(__FILE__, __LINE__);
            }
            break;
""", """        case State::SREF:
            if (cmd.cmd_type != CommandType::SREF_EXIT) {
                AbruptExit(__FILE__, __LINE__);
            }
            state_ = State::CLOSED;
            break;
""")]),
 ("cq_ref_merge", "dramsim3", CQ, [("""        if (is_in_ref_) {
            if (ref_q_indices_.find(queue_idx_) != ref_q_indices_.end()) {
                continue;
            }
        }
        auto cmd = GetFirstReadyInQueue(queue);
        if (cmd.IsValid()) {
            if (cmd.IsReadWrite()) {
                EraseRWCommand(cmd);
            }
            return cmd;
        }
""", """        if (is_in_ref_ && ref_q_indices_.count(queue_idx_) > 0) {
            continue;
        }
        auto cmd = GetFirstReadyInQueue(queue);
        if (!cmd.IsValid()) {
            continue;
        }
        if (cmd.IsReadWrite()) {
            EraseRWCommand(cmd);
        }
        return cmd;
""")]),
 ("cq_samebank_helper", "dramsim3", CQ, [("""        if (prev_itr->Rank() == cmd.Rank() &&
            prev_itr->Bankgroup() == cmd.Bankgroup() &&
            prev_itr->Bank() == cmd.Bank()) {
            return false;
        }
""", """        if (SameBank(*prev_itr, cmd)) {
            return false;
        }
"""), ("""        if (pending_itr->Row() == open_row &&
            pending_itr->Bank() == cmd.Bank() &&
            pending_itr->Bankgroup() == cmd.Bankgroup() &&
            pending_itr->Rank() == cmd.Rank()) {
""", """        if (SameBank(*pending_itr, cmd) && pending_itr->Row() == open_row) {
"""), ("""CommandQueue::CommandQueue(int""", """static bool SameBank(const Command& a, const Command& b) {
    return a.Rank() == b.Rank() && a.Bankgroup() == b.Bankgroup() &&
           a.Bank() == b.Bank();
}

CommandQueue::CommandQueue(int""")]),
 ("cq_arb_early", "dramsim3", CQ, [("""    bool pending_row_hits_exist = false;
    int open_row =""", """    if (channel_state_.RowHitCount(cmd.Rank(), cmd.Bankgroup(), cmd.Bank()) >=
        4) {
        simple_stats_.Increment("num_ondemand_pres");
        return true;
    }
    int open_row ="""), ("""            pending_row_hits_exist = true;
            break;
        }
    }

    bool rowhit_limit_reached =
        channel_state_.RowHitCount(cmd.Rank(), cmd.Bankgroup(), cmd.Bank()) >=
        4;
    if (!pending_row_hits_exist || rowhit_limit_reached) {
        simple_stats_.Increment("num_ondemand_pres");
        return true;
    }
    return false;
""", """            return false;
        }
    }
    simple_stats_.Increment("num_ondemand_pres");
    return true;
""")]),
 ("cq_nextq_mod", "dramsim3", CQ, [("""    queue_idx_++;
    if (queue_idx_ == num_queues_) {
        queue_idx_ = 0;
    }
    return queues_[queue_idx_];
""", """    const int next = queue_idx_ + 1;
    queue_idx_ = (next == num_queues_) ? 0 : next;
    return queues_[queue_idx_];
"""), ("""    int usage = 0;
    for (auto i = queues_.begin(); i != queues_.end(); i++) {
        usage += i->size();
    }
    return usage;
""", """    int usage = 0;
    for (const auto& q : queues_) {
        usage += q.size();
    }
    return usage;
""")]),
 ("cq_add_guard", "dramsim3", CQ, [("""    if (queue.size() < queue_size_) {
        queue.push_back(cmd);
        rank_q_empty[cmd.Rank()] = false;
        return true;
    } else {
        return false;
    }
""", """    const bool has_room = queue.size() < queue_size_;
    if (has_room) {
        rank_q_empty[cmd.Rank()] = false;
        queue.push_back(cmd);
    }
    return has_room;
""")]),
 ("cq_ready_invert", "dramsim3", CQ, [("""        if (!cmd.IsValid()) {
            continue;
        }
        if (cmd.cmd_type == CommandType::PRECHARGE) {
            if (!ArbitratePrecharge(cmd_it, queue)) {
                continue;
            }
        } else if (cmd.IsWrite()) {
            if (HasRWDependency(cmd_it, queue)) {
                continue;
            }
        }
        return cmd;
    }
""", """        if (cmd.IsValid()) {
            bool blocked = false;
            if (cmd.cmd_type == CommandType::PRECHARGE)
                blocked = !ArbitratePrecharge(cmd_it, queue);
            else if (cmd.IsWrite())
                blocked = HasRWDependency(cmd_it, queue);
            if (!blocked)
                return cmd;
        }
    }
""")]),
 ("cq_qindex_flip", "dramsim3", CQ, [("""    if (queue_structure_ == QueueStructure::PER_RANK) {
        return rank;
    } else {
        return rank * config_.banks + bankgroup * config_.banks_per_group +
               bank;
    }
""", """    if (queue_structure_ != QueueStructure::PER_RANK) {
        const int in_rank = bankgroup * config_.banks_per_group + bank;
        return in_rank + rank * config_.banks;
    }
    return rank;
"""), ("""    int index = GetQueueIndex(rank, bankgroup, bank);
    return queues_[index];
""", """    return queues_[GetQueueIndex(rank, bankgroup, bank)];
""")]),
 ("cq_erase_range", "dramsim3", CQ, [("""        if (it->IsRead() && it->Row() == cmd_it->Row() &&
            it->Column() == cmd_it->Column() && it->Bank() == cmd_it->Bank() &&
            it->Bankgroup() == cmd_it->Bankgroup()) {
            return true;
        }
""", """        if (!it->IsRead()) {
            continue;
        }
        const bool same_bank = it->Bank() == cmd_it->Bank() &&
                               it->Bankgroup() == cmd_it->Bankgroup();
        if (same_bank && it->Row() == cmd_it->Row() &&
            it->Column() == cmd_it->Column()) {
            return true;
        }
""")]),
 ("ct_return_helper", "dramsim3", CT, [("""        if (clk >= it->complete_cycle) {
            if (it->is_write) {
                simple_stats_.Increment("num_writes_done");
            } else {
                simple_stats_.Increment("num_reads_done");
                simple_stats_.AddValue("read_latency", clk_ - it->added_cycle);
            }
            auto pair = std::make_pair(it->addr, it->is_write);
            it = return_queue_.erase(it);
            return pair;
        } else {
            ++it;
        }
""", """        if (clk < it->complete_cycle) {
            ++it;
            continue;
        }
        auto pair = std::make_pair(it->addr, it->is_write);
        if (!it->is_write) {
            simple_stats_.Increment("num_reads_done");
            simple_stats_.AddValue("read_latency", clk_ - it->added_cycle);
        } else {
            simple_stats_.Increment("num_writes_done");
        }
        return_queue_.erase(it);
        return pair;
""")]),
 ("ct_sref_helper", "dramsim3", CT, [("""                if (!cmd_queue_.rank_q_empty[i]) {
                    auto addr = Address();
                    addr.rank = i;
                    auto cmd = Command(CommandType::SREF_EXIT, addr, -1);
                    cmd = channel_state_.GetReadyCommand(cmd, clk_);
                    if (cmd.IsValid()) {
                        IssueCommand(cmd);
                        break;
                    }
                }
""", """                if (!cmd_queue_.rank_q_empty[i] &&
                    IssueRankCommand(CommandType::SREF_EXIT, i)) {
                    break;
                }
"""), ("""                        config_.sref_threshold) {
                    auto addr = Address();
                    addr.rank = i;
                    auto cmd = Command(CommandType::SREF_ENTER, addr, -1);
                    cmd = channel_state_.GetReadyCommand(cmd, clk_);
                    if (cmd.IsValid()) {
                        IssueCommand(cmd);
                        break;
                    }
                }
""", """                        config_.sref_threshold &&
                    IssueRankCommand(CommandType::SREF_ENTER, i)) {
                    break;
                }
"""), ("void Controller::ClockTick() {", """bool Controller::IssueRankCommand(CommandType type, int rank) {
    auto addr = Address();
    addr.rank = rank;
    auto ready = channel_state_.GetReadyCommand(Command(type, addr, -1), clk_);
    if (!ready.IsValid()) {
        return false;
    }
    IssueCommand(ready);
    return true;
}

void Controller::ClockTick() {"""), (CTH, "    void ClockTick();", "    void ClockTick();\n    bool IssueRankCommand(CommandType type, int rank);")]),
 ("ct_dual_merge", "dramsim3", CT, [("""            if (second_cmd.IsValid()) {
                if (second_cmd.IsReadWrite() != cmd.IsReadWrite()) {
                    IssueCommand(second_cmd);
                    simple_stats_.Increment("hbm_dual_cmds");
                }
            }
""", """            const bool compatible =
                second_cmd.IsValid() &&
                second_cmd.IsReadWrite() != cmd.IsReadWrite();
            if (compatible) {
                IssueCommand(second_cmd);
                simple_stats_.Increment("hbm_dual_cmds");
            }
""")]),
 ("ct_power_helper", "dramsim3", CT, [("""            bool all_idle = channel_state_.IsAllBankIdleInRank(i);
            if (all_idle) {
                simple_stats_.IncrementVec("all_bank_idle_cycles", i);
                channel_state_.rank_idle_cycles[i] += 1;
            } else {
                simple_stats_.IncrementVec("rank_active_cycles", i);
                // reset
                channel_state_.rank_idle_cycles[i] = 0;
            }
""", """            auto& idle_cycles = channel_state_.rank_idle_cycles[i];
            if (!channel_state_.IsAllBankIdleInRank(i)) {
                simple_stats_.IncrementVec("rank_active_cycles", i);
                idle_cycles = 0;
            } else {
                simple_stats_.IncrementVec("all_bank_idle_cycles", i);
                idle_cycles++;
            }
""")]),
 ("ct_accept_q", "dramsim3", CT, [("""    if (is_unified_queue_) {
        return unified_queue_.size() < unified_queue_.capacity();
    } else if (!is_write) {
        return read_queue_.size() < read_queue_.capacity();
    } else {
        return write_buffer_.size() < write_buffer_.capacity();
    }
""", """    const auto& q = is_unified_queue_ ? unified_queue_
                    : is_write        ? write_buffer_
                                      : read_queue_;
    return q.size() < q.capacity();
""")]),
 ("ct_add_split", "dramsim3", CT, [("""        pending_rd_q_.insert(std::make_pair(trans.addr, trans));
        if (pending_rd_q_.count(trans.addr) == 1) {
            if (is_unified_queue_) {
                unified_queue_.push_back(trans);
            } else {
                read_queue_.push_back(trans);
            }
        }
        return true;
    }
}
""", """        pending_rd_q_.insert(std::make_pair(trans.addr, trans));
        if (pending_rd_q_.count(trans.addr) == 1) {
            (is_unified_queue_ ? unified_queue_ : read_queue_).push_back(trans);
        }
    }
    return true;
}
"""), ("""        trans.complete_cycle = clk_ + 1;
        return_queue_.push_back(trans);
        return true;
    } else {  // read""", """        trans.complete_cycle = clk_ + 1;
        return_queue_.push_back(trans);
    } else {  // read""")]),
 ("ct_sched_drain", "dramsim3", CT, [("""        if ((write_buffer_.size() >= write_buffer_.capacity()) ||
            (write_buffer_.size() > 8 && cmd_queue_.QueueEmpty())) {
            write_draining_ = write_buffer_.size();
        }
""", """        const bool full = write_buffer_.size() >= write_buffer_.capacity();
        const bool idle_batch = !full && write_buffer_.size() >= 9 &&
                                cmd_queue_.QueueEmpty();
        if (full || idle_batch)
            write_draining_ = write_buffer_.size();
""")]),
 ("ct_issue_for", "dramsim3", CT, [("""        while (num_reads > 0) {
            auto it = pending_rd_q_.find(cmd.hex_addr);
            it->second.complete_cycle = clk_ + config_.read_delay;
            return_queue_.push_back(it->second);
            pending_rd_q_.erase(it);
            num_reads -= 1;
        }
""", """        for (; num_reads > 0; num_reads--) {
            auto it = pending_rd_q_.find(cmd.hex_addr);
            auto &read = it->second;
            read.complete_cycle = clk_ + config_.read_delay;
            return_queue_.push_back(read);
            pending_rd_q_.erase(it);
        }
""")]),
 ("ct_trans_table", "dramsim3", CT, [("""    auto addr = config_.AddressMapping(trans.addr);
    CommandType cmd_type;
    if (row_buf_policy_ == RowBufPolicy::OPEN_PAGE) {
        cmd_type = trans.is_write ? CommandType::WRITE : CommandType::READ;
    } else {
        cmd_type = trans.is_write ? CommandType::WRITE_PRECHARGE
                                  : CommandType::READ_PRECHARGE;
    }
    return Command(cmd_type, addr, trans.addr);
""", """    const bool open_page = row_buf_policy_ == RowBufPolicy::OPEN_PAGE;
    CommandType cmd_type = CommandType::READ;
    if (trans.is_write)
        cmd_type = open_page ? CommandType::WRITE : CommandType::WRITE_PRECHARGE;
    else if (!open_page)
        cmd_type = CommandType::READ_PRECHARGE;
    return Command(cmd_type, config_.AddressMapping(trans.addr), trans.addr);
""")]),
 ("ct_stats_helper", "dramsim3", CT, [("""            simple_stats_.Increment("num_read_cmds");
            if (channel_state_.RowHitCount(cmd.Rank(), cmd.Bankgroup(),
                                           cmd.Bank()) != 0) {
                simple_stats_.Increment("num_read_row_hits");
            }
            break;
""", """            simple_stats_.Increment("num_read_cmds");
            if (row_hit()) {
                simple_stats_.Increment("num_read_row_hits");
            }
            break;
"""), ("""            simple_stats_.Increment("num_write_cmds");
            if (channel_state_.RowHitCount(cmd.Rank(), cmd.Bankgroup(),
                                           cmd.Bank()) != 0) {
                simple_stats_.Increment("num_write_row_hits");
            }
            break;
""", """            simple_stats_.Increment("num_write_cmds");
            if (row_hit()) {
                simple_stats_.Increment("num_write_row_hits");
            }
            break;
"""), ("""    switch (cmd.cmd_type) {
        case CommandType::READ:
        case CommandType::READ_PRECHARGE:
            simple_stats_""", """    auto row_hit = [&]() {
        return channel_state_.RowHitCount(cmd.Rank(), cmd.Bankgroup(),
                                          cmd.Bank()) != 0;
    };
    switch (cmd.cmd_type) {
        case CommandType::READ:
        case CommandType::READ_PRECHARGE:
            simple_stats_""")]),
 ("cs_foreach_bank", "dramsim3", CS, [("""    for (auto j = 0; j < config_.bankgroups; j++) {
        if (j != addr.bankgroup) {
            for (auto k = 0; k < config_.banks_per_group; k++) {
                for (auto cmd_timing : cmd_timing_list) {
                    bank_states_[addr.rank][j][k].UpdateTiming(
                        cmd_timing.first, clk + cmd_timing.second);
                }
            }
        }
    }
    return;
""", """    for (int group = 0; group < config_.bankgroups; ++group) {
        if (group == addr.bankgroup)
            continue;
        for (int bank = 0; bank < config_.banks_per_group; ++bank) {
            auto& state = bank_states_[addr.rank][group][bank];
            for (const auto& entry : cmd_timing_list)
                state.UpdateTiming(entry.first, clk + entry.second);
        }
    }
""")]),
 ("cs_apply_helper", "dramsim3", CS, [("""            for (auto cmd_timing : cmd_timing_list) {
                bank_states_[addr.rank][addr.bankgroup][k].UpdateTiming(
                    cmd_timing.first, clk + cmd_timing.second);
            }
""", """            ApplyTiming(bank_states_[addr.rank][addr.bankgroup][k], cmd_timing_list, clk);
"""), ("""    for (auto cmd_timing : cmd_timing_list) {
        bank_states_[addr.rank][addr.bankgroup][addr.bank].UpdateTiming(
            cmd_timing.first, clk + cmd_timing.second);
    }
    return;
""", """    ApplyTiming(bank_states_[addr.rank][addr.bankgroup][addr.bank],
                cmd_timing_list, clk);
"""), ("namespace dramsim3 {\n", """namespace dramsim3 {
static void ApplyTiming(
    BankState& bank,
    const std::vector<std::pair<CommandType, int>>& timing_list, uint64_t clk) {
    for (auto entry : timing_list) {
        bank.UpdateTiming(entry.first, clk + entry.second);
    }
}

""")]),
 ("cs_faw", "dramsim3", CS, [("""    if (!four_aw_[rank].empty()) {
        if (curr_time < four_aw_[rank][0] && four_aw_[rank].size() >= 4) {
            return false;
        }
    }
    return true;
""", """    const auto& window = four_aw_[rank];
    return window.size() < 4 || curr_time >= window[0];
""")]),
 ("cs_window", "dramsim3", CS, [("""    bool tfaw_ok = IsFAWReady(rank, curr_time);
    if (config_.IsGDDR()) {
        if (!tfaw_ok)
            return false;
        else
            return Is32AWReady(rank, curr_time);
    }
    return tfaw_ok;
""", """    if (!IsFAWReady(rank, curr_time)) {
        return false;
    }
    return !config_.IsGDDR() || Is32AWReady(rank, curr_time);
"""), ("""    if (config_.IsGDDR()) {
        if (!thirty_two_aw_[rank].empty() &&
            curr_time >= thirty_two_aw_[rank][0]) {
            thirty_two_aw_[rank].erase(thirty_two_aw_[rank].begin());
        }
        thirty_two_aw_[rank].push_back(curr_time + config_.t32AW);
    }
    return;
""", """    if (!config_.IsGDDR()) {
        return;
    }
    auto& window = thirty_two_aw_[rank];
    if (!window.empty() && curr_time >= window.front()) {
        window.erase(window.begin());
    }
    window.push_back(curr_time + config_.t32AW);
""")]),
 ("cs_ready_flip", "dramsim3", CS, [("""        if (!ready_cmd.IsValid()) {
            return Command();
        }
        if (ready_cmd.cmd_type == CommandType::ACTIVATE) {
            if (!ActivationWindowOk(ready_cmd.Rank(), clk)) {
                return Command();
            }
        }
        return ready_cmd;
""", """        const bool usable =
            ready_cmd.IsValid() &&
            (ready_cmd.cmd_type != CommandType::ACTIVATE ||
             ActivationWindowOk(ready_cmd.Rank(), clk));
        return usable ? ready_cmd : Command();
""")]),
 ("cs_need_early", "dramsim3", CS, [("""    if (need) {
        Address addr = Address(-1, rank, -1, -1, -1, -1);
        refresh_q_.emplace_back(CommandType::REFRESH, addr, -1);
    } else {
        for (auto it = refresh_q_.begin(); it != refresh_q_.end(); it++) {
            if (it->Rank() == rank) {
                refresh_q_.erase(it);
                break;
            }
        }
    }
    return;
""", """    if (need) {
        refresh_q_.push_back(
            Command(CommandType::REFRESH, Address(-1, rank, -1, -1, -1, -1), -1));
        return;
    }
    for (auto it = refresh_q_.begin(); it != refresh_q_.end(); ++it) {
        if (it->Rank() != rank)
            continue;
        refresh_q_.erase(it);
        return;
    }
""")]),
 ("cs_state_order", "dramsim3", CS, [("""        if (cmd.IsRefresh()) {
            RankNeedRefresh(cmd.Rank(), false);
        } else if (cmd.cmd_type == CommandType::SREF_ENTER) {
            rank_is_sref_[cmd.Rank()] = true;
        } else if (cmd.cmd_type == CommandType::SREF_EXIT) {
            rank_is_sref_[cmd.Rank()] = false;
        }
""", """        switch (cmd.cmd_type) {
            case CommandType::SREF_ENTER:
                rank_is_sref_[cmd.Rank()] = true;
                break;
            case CommandType::SREF_EXIT:
                rank_is_sref_[cmd.Rank()] = false;
                break;
            default:
                if (cmd.IsRefresh())
                    RankNeedRefresh(cmd.Rank(), false);
        }
""")]),
 ("ds_range", "dramsim3", DS, [("""  for (size_t i = 0; i < ctrls_.size(); i++) {
    ctrls_[i]->ClockTick();
  }
  clk_++;
""", """  for (auto *ctrl : ctrls_)
    ctrl->ClockTick();
  ++clk_;
""")]),
 ("ds_chan", "dramsim3", DS, [("""  hex_addr >>= config_.shift_bits;
  return (hex_addr >> config_.ch_pos) & config_.ch_mask;
""", """  const uint64_t word = hex_addr >> config_.shift_bits;
  return (word >> config_.ch_pos) & config_.ch_mask;
"""), ("""  int channel = GetChannel(hex_addr);
  return ctrls_[channel]->WillAcceptTransaction(hex_addr, is_write);
""", """  return ctrls_[GetChannel(hex_addr)]->WillAcceptTransaction(hex_addr, is_write);
"""), ("""    Transaction trans = Transaction(hex_addr, is_write);
    ctrls_[channel]->AddTransaction(trans);
""", """    ctrls_[channel]->AddTransaction(Transaction(hex_addr, is_write));
""")]),
 ("rf_switch_if", "dramsim3", RF, [("""        // Staggered all rank refresh
        case RefreshPolicy::RANK_LEVEL_STAGGERED:
            if (!channel_state_.IsRankSelfRefreshing(next_rank_)) {
                channel_state_.RankNeedRefresh(next_rank_, true);
            }
            IterateNext();
            break;
        // Fully staggered per bank refresh
        case RefreshPolicy::BANK_LEVEL_STAGGERED:
            if (!channel_state_.IsRankSelfRefreshing(next_rank_)) {
                channel_state_.BankNeedRefresh(next_rank_, next_bg_, next_bank_,
                                               true);
            }
            IterateNext();
            break;
""", """        // Staggered refresh, per rank or per bank
        case RefreshPolicy::RANK_LEVEL_STAGGERED:
        case RefreshPolicy::BANK_LEVEL_STAGGERED:
            if (!channel_state_.IsRankSelfRefreshing(next_rank_)) {
                if (refresh_policy_ == RefreshPolicy::RANK_LEVEL_STAGGERED)
                    channel_state_.RankNeedRefresh(next_rank_, true);
                else
                    channel_state_.BankNeedRefresh(next_rank_, next_bg_,
                                                   next_bank_, true);
            }
            IterateNext();
            break;
""")]),
 ("rf_carry", "dramsim3", RF, [("""            next_bg_ = (next_bg_ + 1) % config_.bankgroups;
            if (next_bg_ == 0) {
                next_bank_ = (next_bank_ + 1) % config_.banks_per_group;
                if (next_bank_ == 0) {
                    next_rank_ = (next_rank_ + 1) % config_.ranks;
                }
            }
            return;
""", """            next_bg_ = (next_bg_ + 1) % config_.bankgroups;
            if (next_bg_ != 0)
                return;
            next_bank_ = (next_bank_ + 1) % config_.banks_per_group;
            if (next_bank_ != 0)
                return;
            next_rank_ = (next_rank_ + 1) % config_.ranks;
            return;
"""), ("""    if (clk_ % refresh_interval_ == 0 && clk_ > 0) {
        InsertRefresh();
    }
    clk_++;
    return;
""", """    const bool due = clk_ != 0 && (clk_ % refresh_interval_) == 0;
    if (due)
        InsertRefresh();
    ++clk_;
""")]),
]
