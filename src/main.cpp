#include "common.h"
#include <llvm/IR/LLVMContext.h>
namespace jsa
{
int checkReader(Program &, Report &, const std::vector<std::string> &);
int checkWriter(Program &, Report &, const std::vector<std::string> &);
int checkGlobals(Program &, Report &, const std::vector<std::string> &);
int checkErrNames(Program &, Report &, const std::vector<std::string> &);
int checkMembers(Program &, Report &, const std::vector<std::string> &);
int checkOutput(Program &, Report &, const std::vector<std::string> &);
int checkNumbers(Program &, Report &, const std::vector<std::string> &);
int checkCalls(Program &, Report &, const std::vector<std::string> &);
int checkText(Program &, Report &, const std::vector<std::string> &);
int checkTok(Program &, Report &, const std::vector<std::string> &);
}
using namespace jsa;
int main(int argc, char **argv)
{
  if (argc < 3)
  {
    std::cerr << "usage: jsa CHECK module.bc [args]\n";
    return 2;
  }
  std::map<std::string, CheckFn> checks = {{"reader", checkReader}, {"globals", checkGlobals}, {"writer", checkWriter}, {"errnames", checkErrNames}, {"tokens", checkTok}, {"text", checkText}, {"members", checkMembers}, {"output", checkOutput}, {"numbers", checkNumbers}, {"calls", checkCalls}};
  std::string c = argv[1];
  if (!checks.count(c))
  {
    std::cerr << "unknown check\n";
    return 2;
  }
  LLVMContext ctx;
  SMDiagnostic err;
  auto M = parseIRFile(argv[2], err, ctx);
  if (!M)
  {
    std::cerr << "cannot read " << argv[2] << ": " << err.getMessage().str() << "\n";
    return 2;
  }
  std::vector<std::string> rest(argv + 3, argv + argc);
  Report R;
  try
  {
    Program P(*M);
    checks[c](P, R, rest);
  }
  catch (const std::exception &e)
  {
    R.flush();
    std::cout << "BROKEN\t" << e.what() << "\n";
    return 3;
  }
  R.flush();
  std::cout << "DONE\n";
  return 0;
}
