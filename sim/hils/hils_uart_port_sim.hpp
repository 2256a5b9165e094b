// Stand-in for the serial port class of the hardware-in-the-loop build, which is C++/CLI on top of the Windows serial port API.
// Same interface; the port is one end of a simulated cable. Included before every file of the "hils" build.
#if defined(__cplusplus) && !defined(S2E_COMPONENTS_PORTS_HILS_UART_PORT_HPP_)
#define S2E_COMPONENTS_PORTS_HILS_UART_PORT_HPP_
#include <cstring>
#include <deque>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
namespace s2e::components {
struct HilsCable {
  std::deque<unsigned char> in;    // bytes which have arrived at the port
  std::vector<unsigned char> out;  // bytes the port has written
  void* owner = nullptr;           // the open serial port object
  bool unplugged = false;          // every operation fails
  int fail_writes = 0;             // so many writes fail
  long max_read = 1 << 20;         // at most so many bytes are delivered per read
  long opens = 0;
};
inline std::map<unsigned, HilsCable>& HilsCables() { static std::map<unsigned, HilsCable> m; return m; }
class HilsUartPort {
 public:
  HilsUartPort(const unsigned int port_id, const unsigned int baud_rate, const unsigned int tx_buffer_size, const unsigned int rx_buffer_size)
      : id_(port_id), tx_(tx_buffer_size), rx_(rx_buffer_size, 0) { (void)baud_rate; OpenPort(); }
  ~HilsUartPort() { ClosePort(); }
  int OpenPort() { auto& c = HilsCables()[id_]; if (c.owner) return -2; c.owner = this; c.opens++; return 0; }
  int ClosePort() { auto& c = HilsCables()[id_]; if (c.owner != this) return 0; c.owner = nullptr; c.in.clear(); return 0; }
  int WriteTx(const unsigned char* buffer, const unsigned int offset, const unsigned int data_length) {
    if (data_length > tx_) throw std::out_of_range("Marshal::Copy");
    auto& c = HilsCables()[id_]; std::vector<unsigned char> b(buffer + offset, buffer + offset + data_length);
    if (c.owner != this || c.unplugged) return -1;
    if (c.fail_writes > 0) { c.fail_writes--; return -1; }
    c.out.insert(c.out.end(), b.begin(), b.end()); return 0;
  }
  int ReadRx(unsigned char* buffer, const unsigned int offset, const unsigned int data_length) {
    auto& c = HilsCables()[id_]; if (c.owner != this || c.unplugged || data_length > rx_.size()) return -2;
    if (c.in.empty()) return -1;
    unsigned n = 0; while (n < data_length && !c.in.empty() && n < (unsigned long)c.max_read) { rx_[n++] = c.in.front(); c.in.pop_front(); }
    memcpy(buffer + offset, rx_.data(), data_length); return (int)n;  // the whole buffer is copied, like the real one does
  }
  int GetBytesToRead() { auto& c = HilsCables()[id_]; return c.owner == this && !c.unplugged ? (int)c.in.size() : -1; }
 private:
  const unsigned id_, tx_;
  std::vector<unsigned char> rx_;
};
}  // namespace s2e::components
#endif
