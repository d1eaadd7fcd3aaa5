#ifndef svc_rpc_Service_declared
#define svc_rpc_Service_declared

#include "svc/Client.h"
#include "svc/rpc/amount/Writable_Database.h"
#include "svc/rpc/batch/Writable_Database.h"
#include <mutex>

namespace svc::rpc
{
 class Service
 {
  private:
   Client &client;
   std::mutex mutex;

  public:
   Service(Client &client): client(client) {}

   // adds to the score of a person
   void add(amount::Writable_Database &m)
   {
    std::lock_guard<std::mutex> lock(mutex);
    if (m.get_amount() == -1) throw joedb::Exception("refused: " + m.get_name());
    client.transaction([&m](Writable_Database &db)
    {
     auto person = db.find_person_by_name(m.get_name());
     if (person.is_null()) {person = db.new_person(); db.set_name(person, m.get_name());}
     db.set_score(person, db.get_score(person) + m.get_amount());
     m.set_total(db.get_score(person));
    });
   }

   // inserts, updates and deletes in the message
   void transform(batch::Writable_Database &m)
   {
    std::vector<batch::id_of_item> items;
    for (const auto item: m.get_item_table()) items.push_back(item);
    for (const auto item: items)
    {
     if (m.get_value(item) == 666) throw joedb::Exception("bad item: " + m.get_name(item));
     m.set_value(item, int64_t(uint64_t(m.get_value(item)) * 2));
     const auto result = m.new_result();
     m.set_item(result, item);
     m.set_text(result, m.get_name(item) + m.get_name(item));
     if (m.get_next(item).is_null()) m.set_next(item, items.back());
    }
    for (const auto item: items)
     if (m.get_flag(item)) m.delete_item(item);
   }

   // fails with the name of the first item
   void fail(batch::Writable_Database &m)
   {
    for (const auto item: m.get_item_table()) throw joedb::Exception(m.get_name(item));
    throw joedb::Exception("");
   }

   // does nothing
   void nothing(batch::Writable_Database &m)
   {
   }

   // a message with the main schema
   void copy_people(svc::Writable_Database &m)
   {
    std::lock_guard<std::mutex> lock(mutex);
    const auto &db = client.get_database();
    for (const auto person: db.get_person_table())
     if (m.find_person_by_name(db.get_name(person)).is_null())
     {
      const auto p = m.new_person();
      m.set_name(p, db.get_name(person));
      m.set_score(p, db.get_score(person));
     }
   }
 };
}

#endif
