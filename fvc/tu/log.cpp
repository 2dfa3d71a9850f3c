// translation unit of the log system, the stream listener and the logger, with the statements users write
#include <falcon/logsystem.h>
#include <falcon/logstream.h>
#include <falcon/logger.h>
#include FALCON_ENGINE(logsystem.cpp)
#include FALCON_ENGINE(logstream.cpp)
#include FALCON_ENGINE(logger.cpp)
namespace vf {
using namespace falcon;
void line_plain(int level, const std::string& text, int number) { LOG((LogSystem::LEVEL) level) << number << text << "!"; }
void line_category(int level, const std::string& cat, const std::string& text, int number) { LOG((LogSystem::LEVEL) level) << LOG_CAT(cat) << text << number; }
void line_literal(int level) { LOG((LogSystem::LEVEL) level) << "abc" << 12; }
void line_null(int level, const std::string& text) { const char* none = nullptr; LOG((LogSystem::LEVEL) level) << 7 << none << text; }
void nested(int level, int inner, const std::string& text, const std::string& more, const std::string& cat) { LOG_BLOCK((LogSystem::LEVEL) level) { LOGGER << text; LOGGER.setTempCategory(cat);
  LOG((LogSystem::LEVEL) inner) << "i" << more; LOGGER << more; } }
void block(int level, const std::string& text, int number) { LOG_BLOCK((LogSystem::LEVEL) level) { LOGGER << text; LOGGER << number << "."; } }
void block_left(int level, const std::string& cat, const std::string& text) { LOG_BLOCK((LogSystem::LEVEL) level) { LOGGER << text; LOGGER.setTempCategory(cat); break; } }
void block_throw(int level, const std::string& cat, const std::string& text) { LOG_BLOCK((LogSystem::LEVEL) level) { LOGGER.setTempCategory(cat); LOGGER << text; throw std::runtime_error("left"); } }
void set_category(const std::string& cat) { LOG_CATEGORY(cat); }
void use(LogStreamListener& l, std::unique_ptr<std::ostream>& u, std::shared_ptr<std::ostream> s, std::ostream* o, LogProxyListener& p, const LogSystem::Message& m, LogSystem& ls, Logger& g) {
  l.own(u); l.share(s); l.writeOn(o); l.category("a"); (void) l.category(); l.enable(true); l.detach(); l.level(LLINFO); (void) l.level(); (void) l.isEnabled(); (void) l.isDetached();
  p.onMessage(m); l.onMessage(m); ls.level(LLINFO); (void) ls.level(); g.setCategory("x"); g.setTempCategory("y"); (void) g.getCategory(); g.commit(); (void) g.defaultListener();
}
}
