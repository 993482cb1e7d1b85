#pragma once
// stands for the repository header, which needs the result set library: only the identifier of its pseudo database
namespace hdk { struct ResultSetRegistry { static constexpr int DB_ID = (100 << 24) + 1; }; }
