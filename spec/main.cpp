// Reference meaning of a run, written from the property statements (C55, C56, C58).
#include "bin/groot.cpp"

#include "vp.h"

namespace vp
{
// C58: the jobs of the jobs file in their order, without one the default job on all names; the result of all of them is written
void Run(string directory, string jobs_file, string output_file, bool lint)
{
    Driver driver;
    std::ifstream description(
        (boost::filesystem::path{directory} / boost::filesystem::path{"metadata.json"}).string());
    json metadata;
    description >> metadata;
    driver.SetContext(metadata, directory, lint);
    if (jobs_file.empty()) {
        string root = ".";
        driver.SetJob(root);
        driver.GenerateECsAndCheckProperties();
    } else {
        std::ifstream file(jobs_file);
        json jobs;
        file >> jobs;
        for (auto &job : jobs) {
            driver.SetJob(job);
            driver.GenerateECsAndCheckProperties();
        }
    }
    driver.WriteViolationsToFile(output_file);
}

// C55: the lint file is opened before the run, closed after it, and left alone without --lint; C56: zero means all was done
int Program(int argc, const char **argv)
{
    auto args = docopt::docopt(USAGE, {argv + 1, argv + argc}, true, "groot 1.0");
    if (!args.find("<zone_directory>")->second)
        exit(EXIT_FAILURE);
    string directory = args.find("<zone_directory>")->second.asString();
    string jobs, output = "output.json";
    if (args.find("--jobs")->second)
        jobs = args.find("--jobs")->second.asString();
    if (args.find("--output")->second)
        output = args.find("--output")->second.asString();
    bool lint = args.find("--lint")->second.asBool();
    if (lint) {
        std::ofstream file("lint.json");
        file << "[\n";
    }
    Main(directory, jobs, output, lint);
    if (lint) {
        std::ofstream file("lint.json", std::ios::app);
        file << "\n]";
    }
    return 0;
}
} // namespace vp
